// External functions: libc / libstdc++ ABI / iostream stubs / harness API.
#include "sx.h"
#include <llvm/Demangle/Demangle.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <functional>
using std::string; using std::vector;
FInfo *g_extCallee; bool g_threw = false, g_pushed = false;
extern uint64_t constVal(const llvm::Constant *C); int ehTypeId(uint64_t ti); Thread *newThread(); extern int optPreempt;
static std::map<uint64_t, string> streams;   // ostringstream contents by address
static std::map<uint64_t, ExcInfo> excs; static int64_t heapLive = 0; uint64_t g_fmtSym = 0;
static uint64_t fakeTime = 1000000000ull;
bool optSymFmt = false;

string demangle(const string &s) { return llvm::demangle(s); }
#define H [](I & in, V * a, int n, V *ret)
static uint64_t CZ(V v, unsigned w, const char *why) { return v.s ? concretize(v, w, why) : v.c; }

static V heapAlloc(uint64_t sz, ObjKind k) { heapLive++; return vc(allocObj(sz, k)->base); }
static void heapFree(uint64_t p, ObjKind k) {
  if (!p) return; Obj *o = findObj(p); char b[160];
  if (!o || (o->kind != K_NEW && o->kind != K_NEWA && o->kind != K_MALLOC && o->kind != K_EXC)) { snprintf(b, 160, "memory error: invalid free of 0x%llx", (unsigned long long)p); violation(b); }
  if (!o->alive) violation("memory error: double free"); if (o->base != p) violation("memory error: free of interior pointer");
  if (o->kind != k && !inInit) { snprintf(b, 160, "memory error: mismatched deallocation (alloc kind %d, free kind %d)", o->kind, k); violation(b); }
  heapLive--; freeObj(o);
}
// --- strings
static uint64_t strlenV(uint64_t p) { uint64_t n = 0; for (;; n++) { V b = loadMem(p + n, 1); if (!b.s) { if (!b.c) return n; continue; } if (branch(mkEq(b.s, mkConst(8, 0)))) return n; } }
static string strOf(uint64_t p) { bool s; return readCStr(p, s); }
static V cmpBytes(uint64_t p, uint64_t q, uint64_t n, bool str) { // memcmp/strncmp value
  E acc = nullptr; vector<std::pair<V, V>> bs; 
  for (uint64_t i = 0; i < n; i++) { V x = loadMem(p + i, 1), y = loadMem(q + i, 1); 
    if (!x.s && !y.s) { bs.push_back({x, y}); if (x.c != y.c) break; if (str && !x.c) break; continue; }
    bs.push_back({x, y}); if (str) { // need to know where it ends
      if (!x.s && !x.c) break; if (!y.s && !y.c) break; if (x.s && branch(mkEq(x.s, mkConst(8, 0)))) { break; } if (y.s && branch(mkEq(y.s, mkConst(8, 0)))) break; } }
  acc = mkConst(32, 0); for (size_t i = bs.size(); i-- > 0;) { E x = mkZExt(toE(bs[i].first, 8), 32), y = mkZExt(toE(bs[i].second, 8), 32); E rest = acc; acc = mkIte(mkEq(x, y), rest, mkSub(x, y)); }
  return fromE(acc);
}
static void setByteStr(uint64_t d, const vector<V> &b, bool nul = true) { for (size_t i = 0; i < b.size(); i++) storeMem(d + i, 1, b[i]); if (nul) storeMem(d + b.size(), 1, vc(0)); }
// --- formatting: returns sequence of byte values
static void pushS(vector<V> &o, const string &s) { for (char c : s) o.push_back(vc((unsigned char)c)); }
static void symDec(vector<V> &o, E e, bool sgn, int width, char pad) { // exact decimal rendering of a symbolic integer
  unsigned w = e->width; bool neg = false; if (sgn && branch(mkCmp(O_SLT, e, mkConst(w, 0)))) { neg = true; e = mkSub(mkConst(w, 0), e); }
  int nd = 1; uint64_t p = 10; while (nd < 19 && !(w < 64 && p > maskw(w)) && !branch(mkCmp(O_ULT, e, mkConst(w, p)))) { nd++; p *= 10; if (nd == 19) break; }
  int tot = nd + neg; if (pad == '0') { if (neg) o.push_back(vc('-')); while (tot++ < width) o.push_back(vc('0')); } else { while (tot++ < width) o.push_back(vc(' ')); if (neg) o.push_back(vc('-')); }
  uint64_t d = 1; for (int i = 1; i < nd; i++) d *= 10; 
  // digits as fresh constrained variables: e == sum digit_i*10^i (avoids division circuits)
  E sum = mkConst(w, 0); for (int i = 0; i < nd; i++, d /= 10) { E dg = mkBin(O_UREM, mkBin(O_UDIV, e, mkConst(w, d)), mkConst(w, 10)); o.push_back(fromE(mkAdd(mkExtract(dg, 0, 8), mkConst(8, '0')))); } (void)sum;
}
typedef std::function<V(int kind)> ArgFn; // kind 0 int/ptr (64-bit slot), 1 double, 2 long double
static vector<V> format(uint64_t fmtp, ArgFn next) {
  string f = strOf(fmtp); vector<V> o; 
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { o.push_back(vc((unsigned char)f[i])); continue; } size_t st = i++; if (i >= f.size()) break; if (f[i] == '%') { o.push_back(vc('%')); continue; }
    string flags; int width = 0, prec = -1; while (i < f.size() && strchr("-+ #0", f[i])) flags += f[i++];
    if (f[i] == '*') { width = (int)CZ(next(0), 64, "fmt"); i++; } else while (isdigit(f[i])) width = width * 10 + (f[i++] - '0');
    if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = (int)CZ(next(0), 64, "fmt"); i++; } else while (isdigit(f[i])) prec = prec * 10 + (f[i++] - '0'); }
    int lng = 0; bool L = false; while (strchr("hlLzjtq", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't' || f[i] == 'q') lng++; if (f[i] == 'h') lng--; if (f[i] == 'L') L = true; i++; }
    char c = f[i]; char sp[64], buf[512]; string base = "%" + flags + (width ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : ""); (void)st;
    if (c == 's') { V p = next(0); uint64_t s = CZ(p, 64, "%s"); vector<V> b; for (int k = 0; prec < 0 || k < prec; k++) { V x = loadMem(s + k, 1); if (!x.s && !x.c) break; if (x.s && branch(mkEq(x.s, mkConst(8, 0)))) break; b.push_back(x); if (k > 100000) break; }
      int padn = width - (int)b.size(); bool left = flags.find('-') != string::npos; if (!left) while (padn-- > 0) o.push_back(vc(' ')); for (auto &x : b) o.push_back(x); if (left) while (padn-- > 0) o.push_back(vc(' ')); }
    else if (c == 'c') { V x = next(0); o.push_back(x.s ? fromE(mkExtract(x.s, 0, 8)) : vc(x.c & 255)); }
    else if (strchr("diuxXop", c)) { V x = next(0); unsigned w = c == 'p' ? 64 : lng > 0 ? 64 : lng == -1 ? 16 : lng <= -2 ? 8 : 32;
      if (x.s) { E e = mkExtract(x.s, 0, w); if (e->op == O_CONST) x = vc(e->c); else if (optSymFmt && (c == 'd' || c == 'i' || c == 'u')) { symDec(o, e, c != 'u', width, flags.find('0') != string::npos ? '0' : ' '); continue; } else { g_fmtSym++; pushS(o, "?"); continue; } }
      if (c == 'p') snprintf(buf, 512, "0x%llx", (unsigned long long)x.c); else { int64_t sv = sext64(x.c & maskw(w), w); base += "ll"; base += c; if (c == 'd' || c == 'i') snprintf(buf, 512, base.c_str(), (long long)sv); else snprintf(buf, 512, base.c_str(), (unsigned long long)(x.c & maskw(w))); } pushS(o, buf); }
    else if (strchr("eEfFgGaA", c)) { V x = next(L ? 2 : 1); if (x.s) { g_fmtSym++; pushS(o, "?"); continue; } double d; memcpy(&d, &x.c, 8); base += c; snprintf(buf, 512, base.c_str(), d); pushS(o, buf); }
    else { snprintf(sp, 64, "?%c", c); pushS(o, sp); }
  }
  return o;
}
static ArgFn vaArgs(I &in, V *a, int from) { // variadic actuals
  auto k = std::make_shared<int>(from); return [=](int) { return a[(*k)++]; }; }
static ArgFn vaList(uint64_t va) { // x86-64 va_list; we set gp_offset=48, fp_offset=176 so everything is in overflow area
  return [va](int kind) -> V { 
    uint32_t gp = rd32(va), fp = rd32(va + 4); if (kind == 0 && gp < 48) { V v = loadMem(rd64(va + 16) + gp, 8); storeMem(va, 4, vc(gp + 8)); return v; } if (kind == 1 && fp < 176) { V v = loadMem(rd64(va + 16) + fp, 8); storeMem(va + 4, 4, vc(fp + 16)); return v; }
    uint64_t p = rd64(va + 8); V v = loadMem(p, 8); wr64(va + 8, p + (kind == 2 ? 16 : 8)); return v; };
}
static V emit(uint64_t buf, uint64_t sz, const vector<V> &o) { uint64_t n = o.size(); if (sz) { uint64_t k = std::min(n, sz - 1); for (uint64_t i = 0; i < k; i++) storeMem(buf + i, 1, o[i]); storeMem(buf + k, 1, vc(0)); } return vc(n); }
// std::string at address
static string stdStr(uint64_t p, bool *sym = nullptr) { uint64_t d = rd64(p); uint64_t n = rd64(p + 8); string r; for (uint64_t i = 0; i < n && i < 65536; i++) { V v = loadMem(d + i, 1); if (v.s) { if (sym) *sym = true; r += '?'; } else r += (char)v.c; } return r; }
static void makeStdStr(uint64_t p, const string &s) { uint64_t d = p + 16; if (s.size() > 15) { d = heapAlloc(s.size() + 1, K_NEW).c; wr64(p + 16, s.size()); } wr64(p, d); wr64(p + 8, s.size()); for (size_t i = 0; i < s.size(); i++) storeMem(d + i, 1, vc((unsigned char)s[i])); storeMem(d + s.size(), 1, vc(0)); }
static string *streamOf(uint64_t p) { auto it = streams.find(p); if (it != streams.end()) return &it->second; if (p >= 16) { it = streams.find(p - 16); if (it != streams.end()) return &it->second; } return nullptr; }
static void sput(uint64_t os, const string &s) { string *b = streamOf(os); if (b) *b += s; }

static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const string &s, const char *p) { return s.find(p) != string::npos; }
bool stripMatch(const string &d0) {
  static const char *cls[] = {"std::ostream::", "std::istream::", "std::iostream::", "std::basic_ostream<", "std::basic_istream<", "std::basic_iostream<", "std::basic_ios<", "std::ios_base", "std::basic_streambuf<", "std::basic_filebuf<", "std::basic_ifstream<", "std::basic_ofstream<", "std::basic_fstream<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_istringstream<", "std::__cxx11::basic_stringstream<", "std::__cxx11::basic_stringbuf<", "std::locale", "std::ctype<", "std::num_put<", "std::num_get<", "std::basic_stringbuf<", "std::strstream", "std::ostrstream", "std::istrstream", "std::istreambuf_iterator", "std::ostreambuf_iterator"};
  string d = d0; // strip return type for templates: look for " std::..." candidates
  if (starts(d, "virtual thunk to ") ) d = d.substr(17); if (starts(d, "non-virtual thunk to ")) d = d.substr(21);
  for (auto c : {"std::ostream::", "std::istream::", "std::iostream::"}) if (starts(d, c)) return true;
  for (auto c : cls) if (starts(d, c)) { // member function of the class (has ::name( after the template args), not a function returning it
      int depth = 0; size_t i = 0; for (; i < d.size(); i++) { if (d[i] == '<') depth++; else if (d[i] == '>') depth--; else if (depth == 0 && (d[i] == ' ' || d[i] == '(')) break; else if (depth == 0 && d[i] == '&') break; }
      if (i < d.size() && d[i] == '(') return true; if (i >= d.size()) return true;
      if (d.compare(i, 1, " ") == 0 && has(d.substr(0, i), "operator")) return true;
      // "std::basic_ostream<...>& std::fn<...>(" form
      string rest = d.substr(i); size_t q = rest.find("std::"); if (q != string::npos && q <= 3) { string r2 = rest.substr(q); for (auto f : {"std::operator<<", "std::operator>>", "std::endl", "std::ends", "std::flush", "std::__ostream_insert", "std::getline", "std::ws", "std::__ostream_fill", "std::__ostream_write", "std::basic_ostream<", "std::basic_istream<", "std::basic_ios<"}) if (starts(r2, f)) return true; } }
  for (auto f : {"std::operator<< ", "std::operator>> ", "void std::__ostream_", "bool std::has_facet", "std::endl", "std::setw", "std::setprecision", "std::ends", "std::__check_facet", "std::operator|(std::_Ios"}) if (starts(d, f) && (has(d, "ostream") || has(d, "istream"))) return true;
  if (has(d, "std::use_facet<") || has(d, "std::__check_facet<") || has(d, "std::__ostream_insert") || has(d, "std::__ostream_fill")) return true;
  return false;
}
static string fmtD(double d) { char b[64]; snprintf(b, 64, "%g", d); return b; }
static void streamStub(I &in, V *a, int n, V *ret) {
  static std::unordered_map<FInfo *, string> dn; string &d = dn[g_extCallee]; if (d.empty()) d = demangle(g_extCallee->name);
  uint64_t self = n > 0 && !a[0].s ? a[0].c : 0; ret[0] = n > 0 ? a[0] : vc(0);
  auto symq = [&](V v, unsigned, std::function<string(uint64_t)> f) { if (v.s) { g_fmtSym++; sput(self, "?"); } else sput(self, f(v.c)); };
  bool ss = has(d, "basic_ostringstream<") || has(d, "basic_stringstream<") || has(d, "basic_istringstream<") ;
  if (ss && starts(d, "std::__cxx11::basic_")) {
    size_t q = d.rfind("::"); 
    if (has(d, "::~basic_")) { streams.erase(self); return; }
    if (has(d, "::str() const") || has(d, "::str() &&") || has(d, "::str() const &")) { uint64_t os = CZ(a[1], 64, "str"); string *s = streamOf(os); makeStdStr(CZ(a[0], 64, "sret"), s ? *s : ""); return; }
    if (has(d, ">::str(")) { string *s = streamOf(self); if (s) *s = stdStr(CZ(a[1], 64, "str")); return; }
    if (has(d, ">::basic_ostringstream(") || has(d, ">::basic_stringstream(") || has(d, ">::basic_istringstream(")) { streams[self] = ""; if (has(d, "basic_string<char")) { size_t p = d.find("stream("); if (p != string::npos && has(d.substr(p), "basic_string<char")) streams[self] = stdStr(CZ(a[1], 64, "s")); } return; }
    (void)q;
  }
  if (has(d, "operator<<") || has(d, "_M_insert<") || has(d, "__ostream_insert") || has(d, "::put(") || has(d, "::write(")) {
    if (!streamOf(self)) return;
    string args = d.substr(d.rfind('(')); 
    if (has(d, "__ostream_insert") || has(d, "::write(")) { bool s = false; uint64_t p = CZ(a[1], 64, "w"), k = CZ(a[2], 64, "w"); string r; for (uint64_t i = 0; i < k; i++) { V v = loadMem(p + i, 1); r += v.s ? '?' : (char)v.c; } (void)s; sput(self, r); }
    else if (has(d, "char const*)")) { bool s; if (!a[1].s && a[1].c) sput(self, readCStr(a[1].c, s)); }
    else if (has(d, "basic_string<char") && has(d, "const&)")) { sput(self, stdStr(CZ(a[1], 64, "str"))); }
    else if (has(args, "(double)") || has(d, "<double>")) symq(a[1], 64, [](uint64_t c) { double x; memcpy(&x, &c, 8); return fmtD(x); });
    else if (has(args, "(float)")) symq(a[1], 32, [](uint64_t c) { float x; uint32_t u = c; memcpy(&x, &u, 4); return fmtD(x); });
    else if (has(d, ", char)") || has(d, "::put(char)") || has(d, "unsigned char)")) symq(a[1], 8, [](uint64_t c) { return string(1, (char)c); });
    else if (has(args, "(int)")) symq(a[1], 32, [](uint64_t c) { return std::to_string((int)c); });
    else if (has(args, "(short)")) symq(a[1], 16, [](uint64_t c) { return std::to_string((short)c); });
    else if (has(args, "(long") || has(d, "<long>") || has(d, "<long long>")) symq(a[1], 64, [](uint64_t c) { return std::to_string((long)c); });
    else if (has(args, "(unsigned") || has(d, "<unsigned long>") || has(d, "<bool>") || has(args, "(bool)")) symq(a[1], 64, [](uint64_t c) { return std::to_string((unsigned long)c); });
    return;
  }
  if (has(d, "::good() const")) { ret[0] = vc(1); return; }
  if (has(d, "::fail() const") || has(d, "::bad() const") || has(d, "::eof() const") || has(d, "operator!")) { ret[0] = vc(has(d, "ifstream") || has(d, "istream") ? 1 : 0); return; }
  if (has(d, "::is_open")) { ret[0] = vc(0); return; }
  if (has(d, "ctype<char>::")) { ret[0] = n > 1 ? a[1] : vc(0); return; }
}
// ------------------------------------------------------------------ harness API
void applyReplay(E e);
static void recInput(const string &nm, E e, unsigned w) { InputRec r; r.name = nm; r.e = e; r.w = w; r.c = 0; r.kind = 0; g_inputs.push_back(r); curModel.resize(g_vars.size(), 0); if (g_vars.size()) { auto &vi = g_vars.back(); if (vi.hasRange && (vi.lo > 0 || vi.hi < 0)) curModel[g_vars.size() - 1] = (uint64_t)vi.lo & maskw(vi.width); } applyReplay(e); }
static void fillObs(const char *) {}

static std::map<string, Handler> &tab() { static std::map<string, Handler> t; return t; }
static void buildTable() {
  auto &t = tab();
  // ---- harness API
  t["sx_range"] = H { string nm = strOf(CZ(a[0], 64, "n")); int64_t lo = (int64_t)CZ(a[1], 64, "lo"), hi = (int64_t)CZ(a[2], 64, "hi"); if (lo > hi) engineError("sx_range"); if (lo == hi) { InputRec r; r.name = nm; r.e = nullptr; r.w = 64; r.c = lo; r.kind = 0; g_inputs.push_back(r); ret[0] = vc(lo); return; }
    E v = mkVar(nm, 64, true, lo, hi); recInput(nm, v, 64); ret[0] = fromE(v); };
  t["sx_bits"] = H { string nm = strOf(CZ(a[0], 64, "n")); unsigned w = CZ(a[1], 32, "w"); E v = mkVar(nm, w); recInput(nm, v, w); ret[0] = fromE(mkZExt(v, 64)); };
  t["sx_choose"] = H { string nm = strOf(CZ(a[0], 64, "n")); int64_t k = (int64_t)sext64(CZ(a[1], 32, "k"), 32); if (k <= 1) { InputRec r; r.name = nm; r.e = nullptr; r.w = 64; r.c = 0; r.kind = 0; g_inputs.push_back(r); ret[0] = vc(0); return; }
    E v = mkVar(nm, 64, true, 0, k - 1); recInput(nm, v, 64); for (int64_t i = 0; i < k - 1; i++) if (branch(mkEq(v, mkConst(64, i)))) { ret[0] = vc(i); return; } ret[0] = vc(k - 1); };
  t["sx_double"] = H { string nm = strOf(CZ(a[0], 64, "n")); E v = mkVar(nm, 64); recInput(nm, v, 64); ret[0] = fromE(v); };
  t["sx_dyadic"] = H { string nm = strOf(CZ(a[0], 64, "n")); int64_t lo = (int64_t)CZ(a[1], 64, "lo"), hi = (int64_t)CZ(a[2], 64, "hi"); unsigned sc = CZ(a[3], 32, "sc"); E v = mkVar(nm, 64, true, lo, hi); E d = mkDy(v, sc, 53); recInput(nm, d, 64); ret[0] = fromE(d); };
  t["sx_bytes"] = H { string nm = strOf(CZ(a[0], 64, "n")); uint64_t p = CZ(a[1], 64, "p"), k = CZ(a[2], 64, "k"); InputRec r; r.name = nm; r.e = nullptr; r.kind = 1; r.w = 8; r.c = 0; for (uint64_t i = 0; i < k; i++) { E v = mkVar(nm + "[" + std::to_string(i) + "]", 8); curModel.resize(g_vars.size(), 0); r.bytes.push_back(v); storeMem(p + i, 1, V{0, v}); } g_inputs.push_back(r); };
  t["sx_assume"] = H { V c = a[0]; if (c.s) c.s = mkExtract(c.s, 0, 1), c = fromE(c.s); if (!c.s) { if (!(c.c & 1)) finishPath("assume", ""); return; }
    vector<uint64_t> m; int r = feasible(c.s, &m); if (r < 0) engineError("solver unknown in assume"); if (!r) finishPath("assume", ""); curModel = m; addPC(c.s); };
  t["sx_assert"] = H { V c = a[0]; sh->asserts++; if (c.s) { E e = mkExtract(c.s, 0, 1); c = fromE(e); } 
    if (!c.s) { if (!(c.c & 1)) violation("assertion failed: " + strOf(CZ(a[1], 64, "m"))); return; }
    vector<uint64_t> m; sh->assertQueries++; int r = feasible(mkNot(c.s), &m); if (r < 0) engineError("solver unknown in assert: " + strOf(CZ(a[1], 64, "m")) + " " + exprStr(c.s)); if (r) { curModel = m; addPC(mkNot(c.s)); violation("assertion failed: " + strOf(CZ(a[1], 64, "m"))); }
    addPC(c.s); };
  t["sx_reach"] = H { string nm = strOf(CZ(a[0], 64, "n")); int i = 0; int k = sh->nreach; for (; i < k; i++) if (nm == sh->reachName[i]) { sh->reach[i]++; return; } int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } k = sh->nreach; for (i = 0; i < k; i++) if (nm == sh->reachName[i]) break; if (i == k && k < 256) { strncpy(sh->reachName[k], nm.c_str(), 63); sh->nreach = k + 1; } sh->lock = 0; sh->reach[i]++; };
  t["sx_observe"] = H { V v = a[1]; g_obs.push_back({strOf(CZ(a[0], 64, "n")), v}); };
  t["sx_known"] = H { V c = a[0]; if (c.s) c = fromE(mkExtract(c.s, 0, 1)); if (branchV(c)) finishPath("known", strOf(CZ(a[1], 64, "m"))); };
  t["sx_symbolic"] = H { ret[0] = vc(1); };
  t["sx_heap_live"] = H { ret[0] = vc(heapLive); };
  t["sx_log"] = H { fprintf(stderr, "LOG %s %s\n", strOf(CZ(a[0], 64, "n")).c_str(), a[1].s ? exprStr(a[1].s, 12).c_str() : std::to_string((int64_t)a[1].c).c_str()); };
  t["sx_concretize"] = H { ret[0] = vc(CZ(a[0], 64, "sx_concretize")); };
  t["sx_is_symbolic"] = H { ret[0] = vc(a[0].s ? 1 : 0); };
  t["sx_done"] = H { finishPath("ok", ""); };
  // ---- memory
  auto nw = H { ret[0] = heapAlloc(CZ(a[0], 64, "new size"), K_NEW); }; auto nwa = H { ret[0] = heapAlloc(CZ(a[0], 64, "new[] size"), K_NEWA); };
  for (auto s : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) t[s] = nw; for (auto s : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) t[s] = nwa;
  auto del = H { heapFree(CZ(a[0], 64, "delete"), K_NEW); }; auto dela = H { heapFree(CZ(a[0], 64, "delete[]"), K_NEWA); };
  for (auto s : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) t[s] = del; for (auto s : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}) t[s] = dela;
  t["malloc"] = H { ret[0] = heapAlloc(CZ(a[0], 64, "malloc size"), K_MALLOC); };
  t["calloc"] = H { uint64_t k = CZ(a[0], 64, "calloc") * CZ(a[1], 64, "calloc"); ret[0] = heapAlloc(k, K_MALLOC); Obj *o = findObj(ret[0].c); memset(o->data, 0, k); };
  t["realloc"] = H { uint64_t p = CZ(a[0], 64, "realloc"), k = CZ(a[1], 64, "realloc"); ret[0] = heapAlloc(k, K_MALLOC); if (p) { Obj *o = findObj(p); if (!o || !o->alive) violation("memory error: realloc of invalid pointer"); copyMem(ret[0].c, p, std::min<uint64_t>(k, o->size), false); heapFree(p, K_MALLOC); } };
  t["free"] = H { heapFree(CZ(a[0], 64, "free"), K_MALLOC); };
  t["aligned_alloc"] = H { ret[0] = heapAlloc(CZ(a[1], 64, "aa"), K_MALLOC); };
  t["posix_memalign"] = H { V p = heapAlloc(CZ(a[2], 64, "pm"), K_MALLOC); wr64(CZ(a[0], 64, "pm"), p.c); ret[0] = vc(0); };
  t["memcpy"] = t["memmove"] = H { uint64_t k = CZ(a[2], 64, "memcpy len"); copyMem(CZ(a[0], 64, "memcpy dst"), CZ(a[1], 64, "memcpy src"), k, true); ret[0] = a[0]; };
  t["memset"] = H { uint64_t p = CZ(a[0], 64, "memset"), k = CZ(a[2], 64, "memset len"); V b = a[1]; if (b.s) b = fromE(mkExtract(b.s, 0, 8)); else b.c &= 255; if (k) { if (!b.s) { memset(rawRW(p, k, true, ""), b.c, k); Obj *o = findObj(p); if (o->sym) memset(o->sym + (p - o->base), 0, k * sizeof(E)); } else for (uint64_t i = 0; i < k; i++) storeMem(p + i, 1, b); } ret[0] = vc(p); };
  t["memcmp"] = H { uint64_t p = CZ(a[0], 64, "p"), q = CZ(a[1], 64, "q"), k = CZ(a[2], 64, "memcmp len"); ret[0] = cmpBytes(p, q, k, false); };
  t["bcmp"] = H { uint64_t p = CZ(a[0], 64, "p"), q = CZ(a[1], 64, "q"), k = CZ(a[2], 64, "bcmp len"); E e = mkConst(1, 0); for (uint64_t i = 0, w = 0; i < k; i += w) { w = k - i >= 8 && !((p + i) & 7) && !((q + i) & 7) ? 8 : 1; V x = loadMem(p + i, w), y = loadMem(q + i, w); e = mkOr(e, mkNot(mkEq(toE(x, 8 * w), toE(y, 8 * w)))); if (e->op == O_CONST && e->c) break; } ret[0] = fromE(mkZExt(e, 32)); };
  t["memchr"] = H { uint64_t p = CZ(a[0], 64, "p"), k = CZ(a[2], 64, "k"); E c = mkExtract(toE(a[1], 32), 0, 8); for (uint64_t i = 0; i < k; i++) { V x = loadMem(p + i, 1); if (branch(mkEq(toE(x, 8), c))) { ret[0] = vc(p + i); return; } } ret[0] = vc(0); };
  t["strlen"] = H { ret[0] = vc(strlenV(CZ(a[0], 64, "strlen"))); };
  t["strnlen"] = H { uint64_t p = CZ(a[0], 64, "p"), k = CZ(a[1], 64, "k"), i = 0; for (; i < k; i++) { V x = loadMem(p + i, 1); if (branch(mkEq(toE(x, 8), mkConst(8, 0)))) break; } ret[0] = vc(i); };
  t["strcmp"] = H { ret[0] = cmpBytes(CZ(a[0], 64, "p"), CZ(a[1], 64, "q"), ~0ull >> 1, true); };
  t["strncmp"] = H { ret[0] = cmpBytes(CZ(a[0], 64, "p"), CZ(a[1], 64, "q"), CZ(a[2], 64, "n"), true); };
  t["strcpy"] = H { uint64_t d = CZ(a[0], 64, "d"), s = CZ(a[1], 64, "s"), k = strlenV(s); copyMem(d, s, k + 1, false); ret[0] = vc(d); };
  t["stpcpy"] = H { uint64_t d = CZ(a[0], 64, "d"), s = CZ(a[1], 64, "s"), k = strlenV(s); copyMem(d, s, k + 1, false); ret[0] = vc(d + k); };
  t["strncpy"] = H { uint64_t d = CZ(a[0], 64, "d"), s = CZ(a[1], 64, "s"), k = CZ(a[2], 64, "k"), i = 0; for (; i < k; i++) { V x = loadMem(s + i, 1); storeMem(d + i, 1, x); if (branch(mkEq(toE(x, 8), mkConst(8, 0)))) { i++; break; } } for (; i < k; i++) storeMem(d + i, 1, vc(0)); ret[0] = vc(d); };
  t["strcat"] = H { uint64_t d = CZ(a[0], 64, "d"), s = CZ(a[1], 64, "s"), k = strlenV(s), l = strlenV(d); copyMem(d + l, s, k + 1, false); ret[0] = vc(d); };
  t["strdup"] = H { uint64_t s = CZ(a[0], 64, "s"), k = strlenV(s); V p = heapAlloc(k + 1, K_MALLOC); copyMem(p.c, s, k + 1, false); ret[0] = p; };
  t["strchr"] = H { uint64_t p = CZ(a[0], 64, "p"); E c = mkExtract(toE(a[1], 32), 0, 8); for (uint64_t i = 0;; i++) { E x = toE(loadMem(p + i, 1), 8); if (branch(mkEq(x, c))) { ret[0] = vc(p + i); return; } if (branch(mkEq(x, mkConst(8, 0)))) { ret[0] = vc(0); return; } } };
  t["strrchr"] = H { uint64_t p = CZ(a[0], 64, "p"), r = 0; E c = mkExtract(toE(a[1], 32), 0, 8); for (uint64_t i = 0;; i++) { E x = toE(loadMem(p + i, 1), 8); if (branch(mkEq(x, c))) r = p + i; if (branch(mkEq(x, mkConst(8, 0)))) break; } ret[0] = vc(r); };
  t["strstr"] = H { string h = strOf(CZ(a[0], 64, "p")), nd = strOf(CZ(a[1], 64, "p")); size_t k = h.find(nd); ret[0] = vc(k == string::npos ? 0 : a[0].c + k); };
  t["strerror"] = t["strsignal"] = H { static uint64_t p = 0; if (!p) { p = allocObj(16, K_GLOBAL)->base; setByteStr(p, {vc('e'), vc('r'), vc('r')}); } ret[0] = vc(p); };
  // ---- ctype / numbers
  t["isspace"] = H { E c = toE(a[0], 32); E r = mkOr(mkEq(c, mkConst(32, ' ')), mkAnd(mkCmp(O_ULE, mkConst(32, 9), c), mkCmp(O_ULE, c, mkConst(32, 13)))); ret[0] = fromE(mkZExt(r, 32)); };
  t["isdigit"] = H { E c = toE(a[0], 32); ret[0] = fromE(mkZExt(mkAnd(mkCmp(O_ULE, mkConst(32, '0'), c), mkCmp(O_ULE, c, mkConst(32, '9'))), 32)); };
  t["isalpha"] = H { E c = mkOr(toE(a[0], 32), mkConst(32, 32)); ret[0] = fromE(mkZExt(mkAnd(mkCmp(O_ULE, mkConst(32, 'a'), c), mkCmp(O_ULE, c, mkConst(32, 'z'))), 32)); };
  t["isalnum"] = H { E c0 = toE(a[0], 32), c = mkOr(c0, mkConst(32, 32)); E al = mkAnd(mkCmp(O_ULE, mkConst(32, 'a'), c), mkCmp(O_ULE, c, mkConst(32, 'z'))); E dg = mkAnd(mkCmp(O_ULE, mkConst(32, '0'), c0), mkCmp(O_ULE, c0, mkConst(32, '9'))); ret[0] = fromE(mkZExt(mkOr(al, dg), 32)); };
  t["isupper"] = H { E c = toE(a[0], 32); ret[0] = fromE(mkZExt(mkAnd(mkCmp(O_ULE, mkConst(32, 'A'), c), mkCmp(O_ULE, c, mkConst(32, 'Z'))), 32)); };
  t["islower"] = H { E c = toE(a[0], 32); ret[0] = fromE(mkZExt(mkAnd(mkCmp(O_ULE, mkConst(32, 'a'), c), mkCmp(O_ULE, c, mkConst(32, 'z'))), 32)); };
  t["isprint"] = H { E c = toE(a[0], 32); ret[0] = fromE(mkZExt(mkAnd(mkCmp(O_ULE, mkConst(32, 32), c), mkCmp(O_ULE, c, mkConst(32, 126))), 32)); };
  t["toupper"] = H { E c = toE(a[0], 32); E lo = mkAnd(mkCmp(O_ULE, mkConst(32, 'a'), c), mkCmp(O_ULE, c, mkConst(32, 'z'))); ret[0] = fromE(mkIte(lo, mkSub(c, mkConst(32, 32)), c)); };
  t["tolower"] = H { E c = toE(a[0], 32); E up = mkAnd(mkCmp(O_ULE, mkConst(32, 'A'), c), mkCmp(O_ULE, c, mkConst(32, 'Z'))); ret[0] = fromE(mkIte(up, mkAdd(c, mkConst(32, 32)), c)); };
  auto strtol_ = H { uint64_t p = CZ(a[0], 64, "p"), q = p; uint64_t end = CZ(a[1], 64, "e"); int base = (int)CZ(a[2], 32, "b"); if (base != 10 && base != 0) { // concrete only
      string s = strOf(p); char *e; long v = strtol(s.c_str(), &e, base); if (end) wr64(end, p + (e - s.c_str())); ret[0] = vc((uint64_t)v); return; }
    auto isE = [&](E x, char c) { return branch(mkEq(x, mkConst(8, (unsigned char)c))); };
    for (;; q++) { E x = toE(loadMem(q, 1), 8); if (!(branch(mkOr(mkEq(x, mkConst(8, ' ')), mkAnd(mkCmp(O_ULE, mkConst(8, 9), x), mkCmp(O_ULE, x, mkConst(8, 13))))))) break; }
    bool neg = false; E x = toE(loadMem(q, 1), 8); if (isE(x, '-')) { neg = true; q++; } else if (isE(x, '+')) q++; E v = mkConst(64, 0); int nd = 0; bool sat = false;
    for (;; q++) { E x = toE(loadMem(q, 1), 8); if (!branch(mkAnd(mkCmp(O_ULE, mkConst(8, '0'), x), mkCmp(O_ULE, x, mkConst(8, '9'))))) break; v = mkAdd(mkMul(v, mkConst(64, 10)), mkZExt(mkSub(x, mkConst(8, '0')), 64)); if (++nd > 18) sat = true; }
    if (sat) v = mkConst(64, INT64_MAX); if (end) wr64(end, nd ? q : p); ret[0] = fromE(neg ? mkSub(mkConst(64, 0), v) : v); };
  for (auto s : {"strtol", "__isoc23_strtol", "strtoll", "__isoc23_strtoll", "strtoul", "__isoc23_strtoul", "strtoull", "__isoc23_strtoull"}) t[s] = strtol_;
  t["strtod"] = H { string s = strOf(CZ(a[0], 64, "p")); char *e; double d = strtod(s.c_str(), &e); uint64_t end = CZ(a[1], 64, "e"); if (end) wr64(end, a[0].c + (e - s.c_str())); memcpy(&ret[0].c, &d, 8); };
  t["atof"] = H { string s = strOf(CZ(a[0], 64, "p")); double d = atof(s.c_str()); memcpy(&ret[0].c, &d, 8); };
  t["atoi"] = t["atol"] = H { string s = strOf(CZ(a[0], 64, "p")); ret[0] = vc((uint64_t)atol(s.c_str())); };
  auto sscanf_ = H { string s = strOf(CZ(a[0], 64, "p")), f = strOf(CZ(a[1], 64, "f")); if (f == "%d" || f == "%i") { int v; int r = sscanf(s.c_str(), f.c_str(), &v); if (r == 1) storeMem(CZ(a[2], 64, "d"), 4, vc((uint32_t)v)); ret[0] = vc((uint32_t)r); } else engineError("sscanf format " + f); };
  t["sscanf"] = t["__isoc23_sscanf"] = t["__isoc99_sscanf"] = sscanf_;
  // ---- printf family
  t["snprintf"] = H { ret[0] = emit(CZ(a[0], 64, "b"), CZ(a[1], 64, "n"), format(CZ(a[2], 64, "f"), vaArgs(in, a, 3))); };
  t["sprintf"] = H { ret[0] = emit(CZ(a[0], 64, "b"), 1ull << 40, format(CZ(a[1], 64, "f"), vaArgs(in, a, 2))); };
  t["vsnprintf"] = H { ret[0] = emit(CZ(a[0], 64, "b"), CZ(a[1], 64, "n"), format(CZ(a[2], 64, "f"), vaList(CZ(a[3], 64, "va")))); };
  t["vsprintf"] = H { ret[0] = emit(CZ(a[0], 64, "b"), 1ull << 40, format(CZ(a[1], 64, "f"), vaList(CZ(a[2], 64, "va")))); };
  auto zero = H { ret[0] = vc(0); ret[1] = vc(0); }; auto one = H { ret[0] = vc(1); };
  for (auto s : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "vfprintf", "vprintf", "perror", "setvbuf", "fclose", "feof", "ferror"}) t[s] = zero;
  for (auto s : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setdetachstate", "pthread_attr_setstacksize", "pthread_detach", "pthread_kill", "pthread_sigmask", "sigprocmask", "sigaction", "signal", "sigemptyset", "sigaddset", "sigfillset", "setitimer", "alarm", "__cxa_atexit", "atexit", "usleep", "nanosleep", "sleep", "sched_yield", "setpriority", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_cancel", "pthread_setcancelstate", "pthread_setcanceltype", "pthread_cleanup_push", "getrusage", "_ZSt24__throw_out_of_range_fmtPKcz_", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZN9__gnu_cxx6__poolILb1EE13_M_initializeEv", "_ZN9__gnu_cxx6__poolILb0EE13_M_initializeEv", "setlocale", "tzset", "feclearexcept", "syslog", "__cxa_pure_virtual_", "_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}) t[s] = zero;
  for (auto s : {"fopen", "fopen64", "popen", "opendir", "dlopen", "dlsym", "setenv", "times", "gethostbyname", "getservbyname", "readlink", "access", "stat", "unlink", "fork", "system"}) t[s] = zero;
  t["pthread_mutex_init"] = H { storeMem(CZ(a[0], 64, "m"), 4, vc(0)); storeMem(a[0].c + 4, 4, vc(0)); storeMem(a[0].c + 8, 4, vc(0)); storeMem(a[0].c + 16, 4, vc(1)); ret[0] = vc(0); };
  // mutex layout used by the model (inside pthread_mutex_t, 40 bytes): [0] lock owner+1, [4] count ; recursive semantics
  t["pthread_mutex_lock"] = H { uint64_t m = CZ(a[0], 64, "mutex"); ret[0] = vc(0); 
    
    Thread *me = cur; uint32_t tidx = 1; for (size_t i = 0; i < threads.size(); i++) if (threads[i] == me) tidx = i + 1; uint32_t own = rd32(m);
    if (own == 0 || own == tidx) { storeMem(m, 4, vc(tidx)); storeMem(m + 4, 4, vc(rd32(m + 4) + 1)); if (own == 0) maybeSwitch(false); return; }
    // blocked: retry the instruction when scheduled again
    me->frames.back().pc--; me->st = T_MUTEX; me->waitOn = m; g_threw = true; maybeSwitch(true); cur->st = T_RUN; };
  t["pthread_mutex_trylock"] = H { uint64_t m = CZ(a[0], 64, "mutex"); uint32_t tidx = 1; for (size_t i = 0; i < threads.size(); i++) if (threads[i] == cur) tidx = i + 1; uint32_t own = rd32(m); if (own == 0 || own == tidx) { storeMem(m, 4, vc(tidx)); storeMem(m + 4, 4, vc(rd32(m + 4) + 1)); ret[0] = vc(0); } else ret[0] = vc(16); };
  t["pthread_mutex_unlock"] = H { uint64_t m = CZ(a[0], 64, "mutex"); ret[0] = vc(0); uint32_t c = rd32(m + 4); if (c == 0) { ret[0] = vc(1); return; } c--; storeMem(m + 4, 4, vc(c)); if (!c) { storeMem(m, 4, vc(0)); maybeSwitch(false); } };
  t["pthread_cond_signal"] = H { uint64_t c = CZ(a[0], 64, "c"); ret[0] = vc(0); vector<Thread *> w; for (Thread *t : threads) if ((t->st == T_COND || t->st == T_TIMEDCOND) && t->waitOn == c) w.push_back(t); if (w.empty()) return; size_t pick = 0; if (w.size() > 1) { E v = mkVar("sig", 8, true, 0, w.size() - 1); InputRec ir; ir.name = "sched"; ir.e = v; ir.w = 8; ir.c = 0; ir.kind = 0; g_inputs.push_back(ir); curModel.resize(g_vars.size(), 0); applyReplay(v); for (; pick < w.size() - 1; pick++) if (branch(mkEq(v, mkConst(8, pick)))) break; }
    w[pick]->st = T_MUTEX; w[pick]->waitOn = w[pick]->mutexAfter; w[pick]->timedOut = false; maybeSwitch(false); };
  t["pthread_cond_broadcast"] = H { uint64_t c = CZ(a[0], 64, "c"); ret[0] = vc(0); for (Thread *t : threads) if ((t->st == T_COND || t->st == T_TIMEDCOND) && t->waitOn == c) { t->st = T_MUTEX; t->waitOn = t->mutexAfter; t->timedOut = false; } maybeSwitch(false); };
  auto condwait = [](I &in, V *a, V *ret, bool timed) { // two-phase: phase flag in thread
    uint64_t c = CZ(a[0], 64, "c"), m = CZ(a[1], 64, "m"); Thread *me = cur; uint32_t tidx = 1; for (size_t i = 0; i < threads.size(); i++) if (threads[i] == me) tidx = i + 1;
    if (me->tsd.count(~0ull)) { // resuming: re-acquire mutex
      if (me->st == T_TIMEDCOND) { me->st = T_MUTEX; me->timedOut = true; }
      uint32_t own = rd32(m); if (own == 0) { storeMem(m, 4, vc(tidx)); storeMem(m + 4, 4, vc(me->tsd[~0ull])); me->tsd.erase(~0ull); me->st = T_RUN; ret[0] = vc(timed && me->timedOut ? 110 : 0); return; }
      me->st = T_MUTEX; me->waitOn = m; me->frames.back().pc--; g_threw = true; maybeSwitch(true); if (cur->st != T_TIMEDCOND) cur->st = T_RUN; return; }
    me->tsd[~0ull] = rd32(m + 4); storeMem(m, 4, vc(0)); storeMem(m + 4, 4, vc(0)); me->st = timed ? T_TIMEDCOND : T_COND; me->waitOn = c; me->mutexAfter = m; me->timedOut = false; me->frames.back().pc--; g_threw = true; maybeSwitch(true); if (cur->st != T_TIMEDCOND) cur->st = T_RUN; };
  static auto cw = condwait; t["pthread_cond_wait"] = H { cw(in, a, ret, false); }; t["pthread_cond_timedwait"] = H { cw(in, a, ret, true); };
  t["pthread_create"] = H { uint64_t tp = CZ(a[0], 64, "t"), fn = CZ(a[2], 64, "fn"); FInfo *f = funcAt(fn); if (!f || f->ext) engineError("pthread_create target"); Thread *save = cur; Thread *nt = newThread(); uint64_t id = threads.size() - 1; wr64(tp, id); cur = nt; pushCall(f, {a[3]}, -1, 0, 2); cur = save; ret[0] = vc(0); maybeSwitch(false); };
  t["pthread_join"] = H { uint64_t id = CZ(a[0], 64, "t"); ret[0] = vc(0); if (id >= threads.size()) { ret[0] = vc(3); return; } if (threads[id]->st == T_DONE) { uint64_t rp = CZ(a[1], 64, "rv"); if (rp) wr64(rp, threads[id]->retval); return; } cur->st = T_JOIN; cur->waitOn = id; cur->frames.back().pc--; g_threw = true; maybeSwitch(true); cur->st = T_RUN; };
  t["pthread_self"] = H { for (size_t i = 0; i < threads.size(); i++) if (threads[i] == cur) ret[0] = vc(i); };
  t["pthread_exit"] = H { cur->st = T_DONE; g_threw = true; if (cur == threads[0]) finishPath("ok", "main thread exit"); maybeSwitch(true); cur->st = T_RUN; };
  static uint64_t nkey = 1; t["pthread_key_create"] = H { storeMem(CZ(a[0], 64, "k"), 4, vc(nkey++)); ret[0] = vc(0); }; t["pthread_key_delete"] = zero;
  t["pthread_setspecific"] = H { cur->tsd[CZ(a[0], 32, "k")] = CZ(a[1], 64, "v"); ret[0] = vc(0); }; t["pthread_getspecific"] = H { uint64_t k = CZ(a[0], 32, "k"); ret[0] = vc(cur->tsd.count(k) ? cur->tsd[k] : 0); };
  t["pthread_once"] = H { uint64_t c = CZ(a[0], 64, "o"); ret[0] = vc(0); if (rd32(c)) return; storeMem(c, 4, vc(1)); FInfo *f = funcAt(CZ(a[1], 64, "f")); setRet(in, vc(0)); pushCall(f, {}, -1, 0, 0); g_pushed = true; };
  // ---- environment
  t["getenv"] = H { string s = strOf(CZ(a[0], 64, "n")); if (s == "GLIBCXX_FORCE_NEW") { static uint64_t p = 0; if (!p) { p = allocObj(2, K_GLOBAL)->base; setByteStr(p, {vc('1')}); } ret[0] = vc(p); } else if (s == "HOME") { static uint64_t p = 0; if (!p) { p = allocObj(2, K_GLOBAL)->base; setByteStr(p, {vc('/')}); } ret[0] = vc(p); } else ret[0] = vc(0); };
  t["time"] = H { uint64_t p = CZ(a[0], 64, "t"); if (p) wr64(p, fakeTime); ret[0] = vc(fakeTime); };
  t["gettimeofday"] = H { uint64_t p = CZ(a[0], 64, "t"); wr64(p, fakeTime); wr64(p + 8, 0); ret[0] = vc(0); };
  t["clock_gettime"] = H { uint64_t p = CZ(a[1], 64, "t"); wr64(p, fakeTime); wr64(p + 8, 0); ret[0] = vc(0); };
  t["clock"] = zero; t["getpid"] = one; t["getppid"] = one; t["getuid"] = one; t["isatty"] = zero; t["sysconf"] = one;
  t["gethostname"] = H { uint64_t p = CZ(a[0], 64, "p"); setByteStr(p, {vc('h'), vc('o'), vc('s'), vc('t')}); ret[0] = vc(0); };
  t["uname"] = zero; t["localtime"] = t["gmtime"] = H { static uint64_t p = 0; if (!p) { Obj *o = allocObj(64, K_GLOBAL); memset(o->data, 0, 64); p = o->base; } ret[0] = vc(p); }; t["ctime"] = t["strerror"]; t["strftime"] = H { uint64_t p = CZ(a[0], 64, "p"); storeMem(p, 1, vc(0)); ret[0] = vc(0); };
  t["__errno_location"] = H { static uint64_t p = 0; if (!p) { p = allocObj(8, K_GLOBAL)->base; } ret[0] = vc(p); };
  t["__xpg_basename"] = t["basename"] = H { ret[0] = a[0]; };
  t["rand"] = H { E v = mkVar("rand", 31); recInput("rand", v, 31); ret[0] = fromE(mkZExt(v, 32)); }; t["srand"] = zero; t["lrand48"] = t["rand"];
  t["exit"] = t["_exit"] = H { finishPath("ok", "exit"); };
  t["abort"] = H { violation("abort() called"); }; t["_ZSt9terminatev"] = H { violation("std::terminate called"); }; t["__cxa_pure_virtual"] = H { violation("pure virtual call"); };
  t["__assert_fail"] = H { violation("assert() failed: " + strOf(CZ(a[0], 64, "a"))); }; t["__clang_call_terminate"] = t["_ZSt9terminatev"]; t["__cxa_call_unexpected"] = t["_ZSt9terminatev"]; t["__stack_chk_fail"] = t["abort"];
  t["__cxa_throw_bad_array_new_length"] = H { violation("bad array new length"); };
  t["_ZSt17__throw_bad_allocv_"] = t["abort"];
  t["_ZSt15get_new_handlerv"] = zero; t["_ZSt15set_new_handlerPFvvE"] = zero;
  // ---- C++ ABI
  t["__cxa_allocate_exception"] = H { ret[0] = vc(allocObj(CZ(a[0], 64, "exc"), K_EXC)->base); };
  t["__cxa_free_exception"] = H { Obj *o = findObj(a[0].c); if (o && o->alive) freeObj(o); };
  t["__cxa_throw"] = H { ExcInfo e{a[0].c, a[1].c, a[2].c, a[0].c, 0, false}; excs[a[0].c] = e; g_threw = true; throwExc(a[0].c, a[1].c, a[2].c); };
  t["__cxa_begin_catch"] = H { uint64_t o = CZ(a[0], 64, "exc"); for (size_t i = cur->caught.size(); i-- > 0;) if (cur->caught[i].obj == o) { ExcInfo e = cur->caught[i]; cur->caught.erase(cur->caught.begin() + i); e.handlers++; e.rethrown = false; cur->caught.push_back(e); ret[0] = vc(e.adj); return; } engineError("begin_catch"); };
  t["__cxa_get_exception_ptr"] = H { uint64_t o = CZ(a[0], 64, "exc"); for (size_t i = cur->caught.size(); i-- > 0;) if (cur->caught[i].obj == o) { ret[0] = vc(cur->caught[i].adj); return; } ret[0] = a[0]; };
  t["__cxa_end_catch"] = H { // top of the stack of *handled* exceptions
    for (size_t i = cur->caught.size(); i-- > 0;) if (cur->caught[i].handlers > 0) { ExcInfo &e = cur->caught[i]; e.handlers--; 
        if (e.handlers == 0) { ExcInfo c = e; bool re = e.rethrown; if (!re) { cur->caught.erase(cur->caught.begin() + i); Obj *o = findObj(c.obj); if (c.dtor) { FInfo *f = funcAt(c.dtor); if (f && !f->ext) { pushCall(f, {vc(c.obj)}, -1, 0, 0); g_pushed = true; } } (void)o; } else e.rethrown = false, e.handlers = 0; }
        return; } };
  t["__cxa_rethrow"] = H { for (size_t i = cur->caught.size(); i-- > 0;) if (cur->caught[i].handlers > 0) { ExcInfo e = cur->caught[i]; cur->caught[i].rethrown = true; 
        // the record stays for its end_catch; push a new pending record on throw
        cur->caught.erase(cur->caught.begin() + i); ExcInfo keep = e; keep.rethrown = true; keep.obj = e.obj; 
        // marker record so the enclosing end_catch pops it without destroying the object
        ExcInfo mark = keep; mark.obj = 0; mark.dtor = 0; mark.handlers = e.handlers; cur->caught.insert(cur->caught.begin() + i, mark); g_threw = true; e.handlers = 0; throwExc(e.obj, e.ti, e.dtor); return; } violation("rethrow with no exception"); };
  t["__dynamic_cast"] = H { uint64_t p = CZ(a[0], 64, "dc"); ret[0] = vc(p ? dynCast(p, a[1].c, a[2].c) : 0); };
  t["__cxa_guard_acquire"] = H { uint64_t g = CZ(a[0], 64, "g"); if (rd8c(g)) ret[0] = vc(0); else ret[0] = vc(1); }; t["__cxa_guard_release"] = H { storeMem(CZ(a[0], 64, "g"), 1, vc(1)); }; t["__cxa_guard_abort"] = zero;
  t["__cxa_bad_cast"] = H { violation("bad_cast"); }; t["__cxa_bad_typeid"] = H { violation("bad_typeid"); };
  t["__cxa_current_exception_type"] = zero; t["__cxa_demangle"] = zero;
  t["_ZNKSt9type_info7__equalERKS_"] = H { ret[0] = vc(a[0].c == a[1].c || rd64(a[0].c + 8) == rd64(a[1].c + 8)); };
  t["_ZNKSt9type_infoeqERKS_"] = t["_ZNKSt9type_info7__equalERKS_"];
  // ---- pool allocator (used only if the FORCE_NEW path is not taken)
  // ---- math
  #define M1(NAME) t[#NAME] = H { if (a[0].s) { ret[0] = fromE(mkUF(#NAME, 64, a[0].s)); return; } double d; memcpy(&d, &a[0].c, 8); d = NAME(d); memcpy(&ret[0].c, &d, 8); };
  M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(exp) M1(log) M1(log10) M1(log2) M1(exp2) M1(cbrt) M1(expm1) M1(log1p) M1(erf) M1(lgamma) M1(tgamma) M1(j0) M1(j1) M1(y0) M1(y1) M1(asinh) M1(acosh) M1(atanh)
  #define M2(NAME) t[#NAME] = H { if (a[0].s || a[1].s) { ret[0] = fromE(mkUF(#NAME, 64, toE(a[0], 64), toE(a[1], 64))); return; } double d, e; memcpy(&d, &a[0].c, 8); memcpy(&e, &a[1].c, 8); d = NAME(d, e); memcpy(&ret[0].c, &d, 8); };
  M2(atan2) M2(hypot) M2(fmod) M2(nextafter) M2(remainder)
  t["pow"] = H { if (!a[1].s) { double e; memcpy(&e, &a[1].c, 8); if (a[0].s && e == 0) { double o = 1; memcpy(&ret[0].c, &o, 8); return; } if (a[0].s && e == 1) { ret[0] = a[0]; return; } if (a[0].s && e == 2) { ret[0] = fromE(mkFBin(O_FMUL, a[0].s, a[0].s)); return; }
      if (a[0].s && a[0].s->op == O_DY && e == (int)e && e > 2 && e <= 16) { E p = a[0].s; for (int i = 1; i < (int)e; i++) { p = mkFBin(O_FMUL, p, a[0].s); if (p->op != O_DY) break; } if (p->op == O_DY) { ret[0] = fromE(p); return; } } } // exact powers
    if (a[0].s || a[1].s) { ret[0] = fromE(mkUF("pow", 64, toE(a[0], 64), toE(a[1], 64))); return; } double d, e; memcpy(&d, &a[0].c, 8); memcpy(&e, &a[1].c, 8); d = pow(d, e); memcpy(&ret[0].c, &d, 8); };
  t["sqrt"] = H { ret[0] = a[0].s ? fromE(mkFUn(O_FSQRT, a[0].s)) : fromE(mkFUn(O_FSQRT, mkConst(64, a[0].c))); };
  t["fabs"] = H { ret[0] = fromE(mkFAbs(toE(a[0], 64))); }; t["floor"] = H { ret[0] = fromE(mkFRnd(toE(a[0], 64), 0)); }; t["ceil"] = H { ret[0] = fromE(mkFRnd(toE(a[0], 64), 1)); }; t["trunc"] = H { ret[0] = fromE(mkFRnd(toE(a[0], 64), 2)); }; t["rint"] = t["nearbyint"] = H { ret[0] = fromE(mkFRnd(toE(a[0], 64), 3)); }; t["round"] = H { ret[0] = fromE(mkFRnd(toE(a[0], 64), 4)); };
  t["lround"] = H { ret[0] = fromE(mkFCast(O_FPTOSI, mkFRnd(toE(a[0], 64), 4), 64)); }; t["lrint"] = H { ret[0] = fromE(mkFCast(O_FPTOSI, mkFRnd(toE(a[0], 64), 3), 64)); };
  t["modf"] = H { if (a[0].s) { E tr = mkFRnd(a[0].s, 2); storeV(a[1], 64, fromE(tr)); ret[0] = fromE(mkFBin(O_FSUB, a[0].s, tr)); return; } double d, ip; memcpy(&d, &a[0].c, 8); d = modf(d, &ip); uint64_t u; memcpy(&u, &ip, 8); storeV(a[1], 64, vc(u)); memcpy(&ret[0].c, &d, 8); };
  auto isnan_ = H { ret[0] = fromE(mkZExt(mkFCmp(O_FUNO, toE(a[0], 64), toE(a[0], 64)), 32)); }; t["isnan"] = t["__isnan"] = isnan_;
  auto isinf_ = H { E x = mkFAbs(toE(a[0], 64)); ret[0] = fromE(mkZExt(mkEq(x, mkConst(64, 0x7ff0000000000000ull)), 32)); }; t["isinf"] = t["__isinf"] = isinf_;
  t["finite"] = t["__finite"] = H { E x = mkFAbs(toE(a[0], 64)); ret[0] = fromE(mkZExt(mkCmp(O_ULT, x, mkConst(64, 0x7ff0000000000000ull)), 32)); };
  t["fmax"] = H { E x = toE(a[0], 64), y = toE(a[1], 64); ret[0] = fromE(mkIte(mkFCmp(O_FUNO, y, y), x, mkIte(mkFCmp(O_FLT, x, y), y, mkIte(mkFCmp(O_FUNO, x, x), y, x)))); }; t["fmin"] = H { E x = toE(a[0], 64), y = toE(a[1], 64); ret[0] = fromE(mkIte(mkFCmp(O_FUNO, y, y), x, mkIte(mkFCmp(O_FLT, y, x), y, mkIte(mkFCmp(O_FUNO, x, x), y, x)))); };
  t["copysign"] = H { ret[0] = fromE(mkOr(mkAnd(toE(a[0], 64), mkConst(64, maskw(63))), mkAnd(toE(a[1], 64), mkConst(64, 1ull << 63)))); };
  #define MF1(NAME, UFN) t[#NAME] = H { if (a[0].s) { ret[0] = fromE(mkUF(#NAME, 32, a[0].s)); return; } float d; uint32_t u = a[0].c; memcpy(&d, &u, 4); d = NAME(d); memcpy(&u, &d, 4); ret[0] = vc(u); };
  MF1(sinf, s) MF1(cosf, c) MF1(expf, e) MF1(logf, l) MF1(sqrtf, q) MF1(fabsf, f) MF1(floorf, f) MF1(ceilf, f)
  // complex: {double,double} in/out (libm): modelled as uninterpreted pairs
  #define MC(NAME) t[#NAME] = H { if (a[0].s || a[1].s) { ret[0] = fromE(mkUF(#NAME "_re", 64, toE(a[0], 64), toE(a[1], 64))); ret[1] = fromE(mkUF(#NAME "_im", 64, toE(a[0], 64), toE(a[1], 64))); return; } double r, i; memcpy(&r, &a[0].c, 8); memcpy(&i, &a[1].c, 8); double _Complex z; __real__ z = r; __imag__ z = i; z = __builtin_##NAME(z); r = __real__ z; i = __imag__ z; memcpy(&ret[0].c, &r, 8); memcpy(&ret[1].c, &i, 8); };
  MC(cexp) MC(csin) MC(ccos) MC(ctan) MC(csqrt) MC(clog) MC(csinh) MC(ccosh) MC(ctanh)
  t["cabs"] = H { if (a[0].s || a[1].s) { ret[0] = fromE(mkUF("hypot", 64, toE(a[0], 64), toE(a[1], 64))); return; } double r, i; memcpy(&r, &a[0].c, 8); memcpy(&i, &a[1].c, 8); r = hypot(r, i); memcpy(&ret[0].c, &r, 8); };
  t["carg"] = H { if (a[0].s || a[1].s) { ret[0] = fromE(mkUF("atan2", 64, toE(a[1], 64), toE(a[0], 64))); return; } double r, i; memcpy(&r, &a[0].c, 8); memcpy(&i, &a[1].c, 8); r = atan2(i, r); memcpy(&ret[0].c, &r, 8); };
  t["cpow"] = H { if (a[0].s || a[1].s || a[2].s || a[3].s) { E z = mkUF("cpow_x", 64, toE(a[2], 64), toE(a[3], 64)); ret[0] = fromE(mkUF("cpow_re", 64, toE(a[0], 64), toE(a[1], 64), z)); ret[1] = fromE(mkUF("cpow_im", 64, toE(a[0], 64), toE(a[1], 64), z)); return; } double r, i, r2, i2; memcpy(&r, &a[0].c, 8); memcpy(&i, &a[1].c, 8); memcpy(&r2, &a[2].c, 8); memcpy(&i2, &a[3].c, 8); double _Complex z, zz; __real__ z = r; __imag__ z = i; __real__ zz = r2; __imag__ zz = i2; z = __builtin_cpow(z, zz); r = __real__ z; i = __imag__ z; memcpy(&ret[0].c, &r, 8); memcpy(&ret[1].c, &i, 8); };
  t["ldexp"] = H { if (a[0].s || a[1].s) engineError("symbolic ldexp"); double d; memcpy(&d, &a[0].c, 8); d = ldexp(d, (int)a[1].c); memcpy(&ret[0].c, &d, 8); };
}
// ------------------------------------------------------------------ llvm intrinsics
static unsigned tw(I &in, int arg) { return in.src->getOperand(arg)->getType()->getScalarSizeInBits() ? in.src->getOperand(arg)->getType()->getScalarSizeInBits() : 64; }
static V un(I &in, V a, Op op, unsigned w);
static Handler intrinsic(const string &nm) {
  auto is = [&](const char *p) { return starts(nm, p); };
  if (is("llvm.memcpy") || is("llvm.memmove")) return tab()["memcpy"]; if (is("llvm.memset")) return H { tab()["memset"](in, a, n, ret); };
  if (is("llvm.umax") || is("llvm.umin") || is("llvm.smax") || is("llvm.smin")) { static Handler h[4] = {
      H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w), y = toE(a[in.n + i], w); ret[i] = fromE(mkIte(mkCmp(O_ULT, x, y), y, x)); } }, H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w), y = toE(a[in.n + i], w); ret[i] = fromE(mkIte(mkCmp(O_ULT, x, y), x, y)); } },
      H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w), y = toE(a[in.n + i], w); ret[i] = fromE(mkIte(mkCmp(O_SLT, x, y), y, x)); } }, H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w), y = toE(a[in.n + i], w); ret[i] = fromE(mkIte(mkCmp(O_SLT, x, y), x, y)); } } };
    return is("llvm.umax") ? h[0] : is("llvm.umin") ? h[1] : is("llvm.smax") ? h[2] : h[3]; }
  if (is("llvm.abs")) return H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w); ret[i] = fromE(mkIte(mkCmp(O_SLT, x, mkConst(w, 0)), mkSub(mkConst(w, 0), x), x)); } };
  if (is("llvm.expect")) return H { ret[0] = a[0]; };
  if (is("llvm.objectsize")) return H { ret[0] = vc(~0ull); }; if (is("llvm.is.constant")) return H { ret[0] = vc(0); };
  if (is("llvm.trap") || is("llvm.debugtrap") || is("llvm.ubsantrap")) return H { violation("trap"); };
  if (is("llvm.stacksave")) return H { ret[0] = vc(0); }; if (is("llvm.stackrestore")) return H {};
  if (is("llvm.eh.typeid.for")) return H { ret[0] = vc((uint32_t)ehTypeId(a[0].c)); };
  if (is("llvm.va_start")) return H { uint64_t va = CZ(a[0], 64, "va"); Frame &f = cur->frames.back(); size_t k = f.va ? f.va->size() : 0; Obj *o = allocObj(8 * k + 16, K_STACK); for (size_t i = 0; i < k; i++) { V v = (*f.va)[i]; if (v.s && v.s->width < 64) v = fromE(mkZExt(v.s, 64)); storeMem(o->base + 8 * i, 8, v); } storeMem(va, 4, vc(48)); storeMem(va + 4, 4, vc(176)); wr64(va + 8, o->base); wr64(va + 16, 0); };
  if (is("llvm.va_end")) return H {}; if (is("llvm.va_copy")) return H { copyMem(CZ(a[0], 64, "va"), CZ(a[1], 64, "va"), 24, false); };
  if (is("llvm.bswap")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret[0] = fromE(r); };
  if (is("llvm.ctpop")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w)); ret[0] = fromE(r); };
  if (is("llvm.ctlz")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w, w - 1 - i), r); ret[0] = fromE(r); };
  if (is("llvm.cttz")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(w, i), r); ret[0] = fromE(r); };
  if (is("llvm.fshl") || is("llvm.fshr")) { static Handler L = H { unsigned w = tw(in, 0); uint64_t s = CZ(a[2], w, "fsh") % w; E x = toE(a[0], w), y = toE(a[1], w); if (!s) { ret[0] = fromE(x); return; } ret[0] = fromE(mkOr(mkBin(O_SHL, x, mkConst(w, s)), mkBin(O_LSHR, y, mkConst(w, w - s)))); }; static Handler R = H { unsigned w = tw(in, 0); uint64_t s = CZ(a[2], w, "fsh") % w; E x = toE(a[0], w), y = toE(a[1], w); if (!s) { ret[0] = fromE(y); return; } ret[0] = fromE(mkOr(mkBin(O_SHL, x, mkConst(w, w - s)), mkBin(O_LSHR, y, mkConst(w, s)))); }; return is("llvm.fshl") ? L : R; }
  if (is("llvm.usub.sat")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkIte(mkCmp(O_ULT, x, y), mkConst(w, 0), mkSub(x, y))); };
  if (is("llvm.uadd.sat")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), y = toE(a[1], w), s = mkAdd(x, y); ret[0] = fromE(mkIte(mkCmp(O_ULT, s, x), mkConst(w, ~0ull), s)); };
  if (is("llvm.umul.with.overflow")) return H { unsigned w = tw(in, 0); if (a[0].s && a[1].s) { a[1] = vc(concretize(a[1], w, "umul.overflow")); } if (!a[0].s && !a[1].s) { unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; ret[0] = vc((uint64_t)p & maskw(w)); ret[1] = vc((p >> w) != 0); return; } E x = a[0].s ? a[0].s : a[1].s; uint64_t k = a[0].s ? a[1].c : a[0].c; ret[0] = fromE(mkMul(x, mkConst(w, k))); ret[1] = k ? fromE(mkCmp(O_ULT, mkConst(w, maskw(w) / k), x)) : vc(0); };
  if (is("llvm.uadd.with.overflow")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), y = toE(a[1], w), s = mkAdd(x, y); ret[0] = fromE(s); ret[1] = fromE(mkCmp(O_ULT, s, x)); };
  if (is("llvm.usub.with.overflow")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), y = toE(a[1], w); ret[0] = fromE(mkSub(x, y)); ret[1] = fromE(mkCmp(O_ULT, x, y)); };
  if (is("llvm.sadd.with.overflow")) return H { unsigned w = tw(in, 0); E x = toE(a[0], w), y = toE(a[1], w), s = mkAdd(x, y), z = mkConst(w, 0); ret[0] = fromE(s); E sx = mkCmp(O_SLT, x, z), sy = mkCmp(O_SLT, y, z), ss = mkCmp(O_SLT, s, z); ret[1] = fromE(mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, ss)))); };
  if (is("llvm.smul.with.overflow")) return H { unsigned w = tw(in, 0); a[0] = vc(CZ(a[0], w, "smul")); a[1] = vc(CZ(a[1], w, "smul")); __int128 p = (__int128)sext64(a[0].c, w) * sext64(a[1].c, w); ret[0] = vc((uint64_t)p & maskw(w)); ret[1] = vc(p != (__int128)sext64((uint64_t)p & maskw(w), w)); };
  // fp
  #define FU(PFX, EXPR) if (is(PFX)) return H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) { E x = toE(a[i], w); ret[i] = fromE(EXPR); } };
  FU("llvm.fabs", mkFAbs(x)) FU("llvm.floor", mkFRnd(x, 0)) FU("llvm.ceil", mkFRnd(x, 1)) FU("llvm.trunc", mkFRnd(x, 2)) FU("llvm.rint", mkFRnd(x, 3)) FU("llvm.nearbyint", mkFRnd(x, 3)) FU("llvm.roundeven", mkFRnd(x, 3)) FU("llvm.round", mkFRnd(x, 4)) FU("llvm.sqrt", mkFUn(O_FSQRT, x))
  if (is("llvm.fmuladd") || is("llvm.fma")) return H { unsigned w = tw(in, 0); for (int i = 0; i < in.n; i++) ret[i] = fromE(mkFBin(O_FADD, mkFBin(O_FMUL, toE(a[i], w), toE(a[in.n + i], w)), toE(a[2 * in.n + i], w))); };
  if (is("llvm.copysign")) return H { unsigned w = tw(in, 0); ret[0] = fromE(mkOr(mkAnd(toE(a[0], w), mkConst(w, maskw(w - 1))), mkAnd(toE(a[1], w), mkConst(w, 1ull << (w - 1))))); };
  if (is("llvm.maxnum.f64")) return tab()["fmax"]; if (is("llvm.minnum.f64")) return tab()["fmin"];
  if (is("llvm.is.fpclass")) return H { unsigned w = tw(in, 0); uint64_t m = a[1].c; E x = toE(a[0], w), r = mkConst(1, 0), ab = mkFAbs(x); E inf = mkConst(w, w == 64 ? 0x7ff0000000000000ull : 0x7f800000), mn = mkConst(w, w == 64 ? 0x10000000000000ull : 0x800000), z = mkConst(w, 0); E neg = mkExtract(x, w - 1, 1), pos = mkNot(neg); E isn = mkCmp(O_ULT, inf, ab), isi = mkEq(ab, inf), isz = mkEq(ab, z), iss = mkAnd(mkCmp(O_ULT, ab, mn), mkNot(isz)), isnorm = mkAnd(mkCmp(O_ULT, ab, inf), mkCmp(O_ULE, mn, ab));
      if (m & 3) r = mkOr(r, isn); if (m & 4) r = mkOr(r, mkAnd(neg, isi)); if (m & 8) r = mkOr(r, mkAnd(neg, isnorm)); if (m & 16) r = mkOr(r, mkAnd(neg, iss)); if (m & 32) r = mkOr(r, mkAnd(neg, isz)); if (m & 64) r = mkOr(r, mkAnd(pos, isz)); if (m & 128) r = mkOr(r, mkAnd(pos, iss)); if (m & 256) r = mkOr(r, mkAnd(pos, isnorm)); if (m & 512) r = mkOr(r, mkAnd(pos, isi)); ret[0] = fromE(r); };
  if (is("llvm.pow.")) return tab()["pow"]; if (is("llvm.powi")) return H { if (a[0].s || a[1].s) engineError("powi"); double d; memcpy(&d, &a[0].c, 8); d = __builtin_powi(d, (int)a[1].c); memcpy(&ret[0].c, &d, 8); };
  if (is("llvm.exp2.f64")) return tab()["exp2"]; if (is("llvm.exp.f64")) return tab()["exp"]; if (is("llvm.log.f64")) return tab()["log"]; if (is("llvm.log10.f64")) return tab()["log10"]; if (is("llvm.log2.f64")) return tab()["log2"]; if (is("llvm.sin.f64")) return tab()["sin"]; if (is("llvm.cos.f64")) return tab()["cos"]; if (is("llvm.ldexp")) return tab()["ldexp"];
  if (is("llvm.vector.reduce.add")) return H { unsigned w = tw(in, 0); E r = toE(a[0], w); for (int i = 1; i < n; i++) r = mkAdd(r, toE(a[i], w)); ret[0] = fromE(r); };
  if (is("llvm.vector.reduce.or")) return H { unsigned w = tw(in, 0); E r = toE(a[0], w); for (int i = 1; i < n; i++) r = mkOr(r, toE(a[i], w)); ret[0] = fromE(r); };
  if (is("llvm.vector.reduce.and")) return H { unsigned w = tw(in, 0); E r = toE(a[0], w); for (int i = 1; i < n; i++) r = mkAnd(r, toE(a[i], w)); ret[0] = fromE(r); };
  if (is("llvm.threadlocal.address")) return H { ret[0] = a[0]; }; if (is("llvm.ptrmask")) return H { ret[0] = fromE(mkAnd(toE(a[0], 64), toE(a[1], 64))); };
  if (is("llvm.fptosi.sat")) return H { ret[0] = fromE(mkFCast(O_FPTOSI, toE(a[0], tw(in, 0)), in.w)); };
  if (is("llvm.fptoui.sat")) return H { ret[0] = fromE(mkFCast(O_FPTOUI, toE(a[0], tw(in, 0)), in.w)); };
  if (is("llvm.load.relative")) return H { uint64_t p = CZ(a[0], 64, "lr"); ret[0] = vc(p + (int64_t)(int32_t)rd32(p + CZ(a[1], 64, "lr"))); };
  if (is("llvm.ucmp") || is("llvm.scmp")) return nullptr;
  return nullptr;
}
Handler lookupExternal(const string &nm, const llvm::Function *F) {
  static bool init = false; if (!init) { init = true; buildTable(); }
  if (starts(nm, "llvm.")) return intrinsic(nm);
  auto it = tab().find(nm); if (it != tab().end()) return it->second;
  if (starts(nm, "_ZNSo") || starts(nm, "_ZNSi") || starts(nm, "_ZNSd") || starts(nm, "_ZNSt") || starts(nm, "_ZNKSt") || starts(nm, "_ZSt") || starts(nm, "_ZN9__gnu_cxx")) { string d = demangle(nm); if (stripMatch(d)) return streamStub; }
  return nullptr;
}
