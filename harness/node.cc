// Nodes, functions and the forest.  Real Forest/Node/Function/NodeNursery with test leaves.
#include "sx.h"
#include <MEQ/Forest.h>
#include <MEQ/Function.h>
#include <MEQ/Node.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Vells.h>
#include <MEQ/Request.h>
#include <MEQ/Cells.h>
#include <MEQ/MeqVocabulary.h>
#include <TimBase/Timer.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Vec.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
using namespace Meq;
extern "C" char *getcwd(char *b, size_t) throw() { strcpy(b, "/"); return b; }
double LOFAR::NSTimer::CPU_speed_in_MHz = 1000.;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static NodeFace *make(Forest &f, int &idx, const char *cls, const char *name, int want, const int *ch, int nch, int policy = 0) {
  DMI::Record *r = new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass] = string(cls); if (name && *name) (*r)[FName] = string(name); if (want) (*r)[FNodeIndex] = want;
  if (nch) (*r)[FChildren] <<= new DMI::Vec(Tpint, nch, ch); if (policy) (*r)[FCachePolicy] = policy; return &f.create(idx, rr);
}
// ---- registry of nodes
ENTRY forest_registry() {
  Forest f; const char *name[8]; bool used[8] = {0}; int top = 0; const int N = TIERED(3, 4); static const char *NM[4] = {"", "a", "b", "c"}; // top: highest index in use
  static const int INIT[5][3] = {{0}, {1, 1}, {1, 2}, {2, 1, 3}, {2, 2, 1}}; { int c = sx_choose("start", 5); for (int i = 0; i < INIT[c][0]; i++) { int at = INIT[c][1 + i], got = 0; make(f, got, "MeqNode", NM[1 + i], at, 0, 0); CHECK(got == at, "a node gets the index asked for, or a free one"); used[at] = true; name[at] = NM[1 + i]; if (at > top) top = at; } }
  bool look = sx_choose("look", 2); for (int s = 0, ns = TIERED(2, 3) - look; s < ns; s++) {
    int op = sx_choose(nm("op"), 4); bool bad = false, thrown = false; int size = -1; (void)size;
    if (op == 0) { int k = sx_choose(nm("name"), TIERED(3, 4)), want = sx_choose(nm("index"), N + 1), cls = sx_choose(nm("class"), 3); bool dup = false; for (int i = 1; i <= top; i++) if (used[i] && *NM[k] && !strcmp(name[i], NM[k])) dup = true; bad = dup || cls || (want && used[want]); int got = -1;
      try { NodeFace *p = make(f, got, cls == 0 ? "MeqNode" : cls == 1 ? "MeqResult" : "Nodeindex", NM[k], want, 0, 0); CHECK(got > 0 && got < 8 && !used[got] && (!want || got == want), "a node gets the index asked for, or a free one"); CHECK(p->nodeIndex() == got && p->name() == NM[k], "a node gets the index and name asked for"); } catch (std::exception &) { thrown = true; }
      CHECK(thrown == bad, "duplicate and unknown nodes are refused"); if (!bad) { used[got] = true; name[got] = NM[k]; if (got > top) top = got; } else sx_reach("refused"); }
    else if (op == 1) { int i = sx_choose(nm("index"), N + 4) - 1; bad = i <= 0 || i > top || !used[i]; try { f.remove(i); } catch (std::exception &) { thrown = true; } CHECK(thrown == bad, "only nodes that exist can be removed"); if (!bad) { used[i] = false; while (top && !used[top]) top--; sx_reach("removed"); } }
    else if (op == 2) { f.clear(); for (int i = 0; i < 8; i++) used[i] = false; top = 0; }
    else { DMI::Record list; int n = f.getNodeList(list, Forest::NL_NODEINDEX | Forest::NL_NAME | Forest::NL_CLASS), m = 0; for (int i = 1; i <= top; i++) m += used[i]; CHECK(n == m, "the node list has every node"); if (m) { std::vector<int> ni = list[AidNodeIndex].as_vector<int>(); std::vector<string> na = list[AidName].as_vector<string>(), cl = list[AidClass].as_vector<string>(); CHECK((int)ni.size() == m && (int)na.size() == m, "the node list has every node"); int k = 0; for (int i = 1; i <= top; i++) if (used[i]) { CHECK(ni[k] == i && na[k] == name[i] && cl[k] == "MeqNode", "the node list has every node"); k++; } } sx_reach("list"); }
    for (int k = 1; k < 4; k++) { int w = -1; for (int i = 1; i <= top; i++) if (used[i] && !strcmp(name[i], NM[k])) w = i; CHECK(f.findIndex(NM[k]) == w, "a name finds its node"); bool t = false; try { CHECK(f.findNode(NM[k]).nodeIndex() == w, "a name finds its node"); } catch (std::exception &) { t = true; } CHECK(t == (w < 0), "other names are refused"); }
  }
  if (!look) { sx_reach("end"); return; }
  int q = (int)sx_bits("lookup", 32), how = sx_choose("how", 4); bool in = q > 0 && q <= top, ok = false; for (int i = 1; i <= top; i++) if (used[i] && q == i) ok = true; bool t = false, v = false;
  try { if (how == 0) { v = f.valid(q); CHECK(v == ok, "exactly the nodes created are valid"); sx_reach("lookup"); } else if (how == 1) { NodeFace &n = f.get(q); CHECK(n.nodeIndex() == q, "an index finds its node"); v = true; } else if (how == 2) { v = f.getRef(q).valid(); CHECK(v == ok, "a reference to a node is valid exactly if the node exists"); } else { f.remove(q); v = true; CHECK(!f.valid(q), "a node removed is gone"); } } catch (std::exception &) { t = true; }
  if (how == 1 || how == 3) CHECK(t == !ok, "other indices are refused"); if (how == 2) CHECK(t ? !in || !ok : in || !v, "a reference to a node is valid exactly if the node exists");
  sx_reach("end");
}
// ---- functions of child results: weighted sums of up to 3 children
struct Lin : Function {
  Lin() : Function(-1, 0, 0) {}
  using Function::allowMissingData; using Function::flagmask_;
  Forest fo_; void setup(int n) { DMI::Record *r = new DMI::Record; DMI::Record::Ref rr(r); if (n) { int v[4] = {1, 2, 3, 4}; (*r)[FChildren] <<= new DMI::Vec(Tpint, n, v); } attachInitRecord(rr, &fo_); children().init(n, "lin"); }
  int run(Result::Ref &r, const std::vector<Result::Ref> &c, const Request &q) { return getResult(r, c, q, true); }
  virtual Vells evaluate(const Request &, const LoShape &, const std::vector<const Vells *> &v) { Vells s(0., false); for (unsigned i = 0; i < v.size(); i++) if (v[i]) { double w = 1 << i; s += *v[i] * Vells(w, false); } return s; }
};
struct MC { int dims, state[2], np, shape[2], nsp[2], sp[2][2]; double v[2][2], pt[2][2], p[2][2][2][2]; bool fl[2]; int flag[2][2]; int fid[2]; }; // child: [plane]; p[plane][set][spid][point]
static MC mc[3]; static int ID[4]; // solvable ids, ascending; children name them by number
static void child(MC &c, Result::Ref &ref, int ci, int planes, bool pert, bool flags, bool shapes, const double (*pt)[2], int badset) {
  c.dims = planes > 1 ? sx_choose(nm("tensor"), 2) : 0; int np = c.dims ? planes : 1; Result &r = ref <<= new Result(np);
  if (c.dims) { Result::Dims d(planes); r.setDims(d); }
  for (int k = 0; k < np; k++) {
    c.state[k] = sx_choose(nm("state"), 3); if (k && c.state[0] && c.state[k] == c.state[0] && 0) sx_assume(false); VellSet &vs = r.setNewVellSet(k, 0, 0); c.nsp[k] = 0; c.fl[k] = false;
    if (c.state[k] == 1) continue; if (c.state[k] == 2) { c.fid[k] = (int)sx_bits(nm("fail"), 32); DMI::Record *f = new DMI::Record; ObjRef fr(f); (*f)[AidMessage] = c.fid[k]; vs.addFail(fr); continue; }
    c.shape[k] = shapes ? 1 + sx_choose(nm("points"), 2) : 1; static const int SP[7][3] = {{0}, {1, 1}, {1, 2}, {1, 3}, {2, 1, 2}, {2, 1, 3}, {2, 2, 3}}; int sc = pert ? sx_choose(nm("spids"), 7) : 0; c.nsp[k] = SP[sc][0]; c.np = c.nsp[k] ? badset : 0;
    if (c.nsp[k]) { vs.setNumPertSets(c.np); std::vector<int> s(c.nsp[k]); for (int i = 0; i < c.nsp[k]; i++) { c.sp[k][i] = SP[sc][1 + i]; s[i] = ID[c.sp[k][i]]; } vs.setSpids(s); }
    Vells *v = new Vells(0., c.shape[k] == 1 ? LoShape(1) : LoShape(2), true); double *x = (double *)v->getDataPtr(); for (int i = 0; i < c.shape[k]; i++) x[i] = c.v[k][i] = pert ? sx_dyadic(nm("v"), 16, 8000, 3) : sx_dyadic(nm("v"), -1000, 1000, 3); if (flags && c.shape[k] == 1) sx_assume(c.v[k][0] != 0); vs.setValue(v);
    for (int i = 0; i < c.nsp[k]; i++) for (int j = 0; j < c.np; j++) { double q = 0; for (int s = 1; s <= 3; s++) if (c.sp[k][i] == s) q = pt[s][j]; vs.setPerturbation(i, q, j); Vells *w = new Vells(0., c.shape[k] == 1 ? LoShape(1) : LoShape(2), true); double *y = (double *)w->getDataPtr(); for (int n = 0; n < c.shape[k]; n++) y[n] = c.p[k][j][i][n] = (pert ? sx_dyadic(nm("p"), 16, 8000, 3) : sx_dyadic(nm("p"), -1000, 1000, 3)); vs.setPerturbedValue(i, w, j); }
    if (flags && sx_choose(nm("flags"), 2)) { c.fl[k] = true; Vells *f = new Vells(c.shape[k] == 1 ? LoShape(1) : LoShape(2), int(0), true); int *y = (int *)f->getDataPtr(); for (int n = 0; n < c.shape[k]; n++) y[n] = c.flag[k][n] = (int)sx_bits(nm("flag"), 32); Vells::Ref fr(f); vs.setDataFlags(fr); }
  }
  (void)ci;
}
static double at(const Vells &v, int n) { return ((const double *)v.getConstDataPtr())[v.nelements() == 1 ? 0 : n]; }
static void func(int n, int planes, bool pert, bool flags, bool shapes, bool uneven) {
  bool allow = sx_choose("allow", 2); Lin f; f.setup(n); if (allow) f.allowMissingData(); int mask[3]; f.flagmask_.resize(n); for (int i = 0; i < n; i++) f.flagmask_[i] = mask[i] = flags ? (int)sx_bits(nm("mask"), 32) : -1;
  if (pert) { for (int s = 1; s <= 3; s++) ID[s] = (int)sx_bits(nm("id"), 31); sx_assume(ID[1] < ID[2] && ID[2] < ID[3]); }
  int sets = pert ? 1 + sx_choose("sets", 2) : 0; double pt[4][2]; for (int s = 1; s <= 3; s++) for (int j = 0; j < 2; j++) pt[s][j] = s + 0.5 * j;
  std::vector<Result::Ref> cr(n); int few = 0; for (int i = 0; i < n; i++) { int ns = sets; if (uneven && sets == 2 && i == 1) ns = 1, few = 1; child(mc[i], cr[i], i, planes, pert, flags, shapes, pt, ns); }
  Result::Ref res; Request q; int code = f.run(res, cr, q);
  int np = 1; for (int i = 0; i < n; i++) if (mc[i].dims) np = planes; CHECK(res->numVellSets() == np && int(res->tensorRank()) == (np > 1), "a function has the dimensions of its tensor children"); int nf = 0, nmiss = 0;
  for (int k = 0; k < np; k++) {
    const VellSet &vs = res->vellSet(k); int fails = 0, miss = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; fails += mc[i].state[kk] == 2; miss += mc[i].state[kk] == 1; }
    if (fails) { CHECK(vs.isFail() && vs.numFails() == fails, "fails of all children are passed on"); int w = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (mc[i].state[kk] == 2) { ObjRef r = vs.getFail(w++); CHECK(r.as<DMI::Record>()[AidMessage].as<int>() == mc[i].fid[kk], "fails of all children are passed on"); } } nf++; continue; }
    if (miss && (miss == n || !allow)) { CHECK(!vs.isFail() && !vs.hasValue(), "missing data stays missing"); nmiss++; continue; }
    int pts = 1; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk] && mc[i].shape[kk] > pts) pts = mc[i].shape[kk]; }
    bool has[4] = {0}, bad = false; int cnt[4] = {0}; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk]) for (int j = 0; j < mc[i].nsp[kk]; j++) for (int s = 1; s <= 3; s++) if (mc[i].sp[kk][j] == s) { has[s] = true; if (mc[i].np > cnt[s]) cnt[s] = mc[i].np; } }
    int most = 0; for (int s = 1; s <= 3; s++) if (cnt[s] > most) most = cnt[s]; for (int s = 1; s <= 3; s++) if (has[s] && cnt[s] < most) bad = true; bool uneq = false; if (few) { int lo = 3, hi = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk] && mc[i].nsp[kk]) { if (mc[i].np < lo) lo = mc[i].np; if (mc[i].np > hi) hi = mc[i].np; } } uneq = hi > lo && hi; }
    if (bad) { CHECK(vs.isFail(), "sets of perturbations that do not match are refused"); nf++; sx_reach("uneven"); continue; }
    CHECK(!vs.isFail() && vs.hasValue(), "a function of good values has a value"); for (int t = 0; t < pts; t++) { double e = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk]) e += (1 << i) * mc[i].v[kk][mc[i].shape[kk] == 1 ? 0 : t]; } CHECK(at(vs.getValue(), t) == e, "the main value is the function of the main values"); }
    int m = 0; for (int s = 1; s <= 3; s++) if (has[s]) { CHECK(m < vs.numSpids() && vs.getSpid(m) == ID[s], "the solvable ids are those of all children, ascending"); CHECK(vs.numPertSets() == most, "there are as many sets of perturbations as the children have");
      for (int j = 0; j < most; j++) { CHECK(vs.getPerturbation(m, j) == pt[s][j], "perturbations are those of the children"); const Vells &pv = vs.getPerturbedValue(m, j); for (int t = 0; t < pts; t++) { double e = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (mc[i].state[kk]) continue; int a = mc[i].shape[kk] == 1 ? 0 : t; double x = mc[i].v[kk][a]; if (j < mc[i].np) for (int u = 0; u < mc[i].nsp[kk]; u++) if (mc[i].sp[kk][u] == s) x = mc[i].p[kk][j][u][a]; e += (1 << i) * x; } if (!uneq) CHECK(at(pv, t) == e, "a perturbed value is the function of the children's perturbed values, or main values where they have none"); } } m++; sx_reach("perturbed"); }
    CHECK(vs.numSpids() == m, "the solvable ids are those of all children, ascending");
    bool hf = false; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk] && mc[i].fl[kk]) hf = true; } if (!hf) CHECK(!vs.hasDataFlags(), "no flags come from nowhere"); for (int t = 0; t < pts && flags; t++) { int e = 0; for (int i = 0; i < n; i++) { int kk = mc[i].dims ? k : 0; if (!mc[i].state[kk] && mc[i].fl[kk]) e |= mc[i].flag[kk][mc[i].shape[kk] == 1 ? 0 : t] & mask[i]; } int g = 0; if (vs.hasDataFlags()) { const Vells &fv = vs.dataFlags(); g = ((const int *)fv.getConstDataPtr())[fv.nelements() == 1 ? 0 : t]; sx_reach("flagged"); } CHECK(g == e, "flags are those of the children under their masks"); }
  }
  CHECK(bool(code & NodeFace::RES_FAIL) == (nf == np), "the function fails if every part of its result has"); CHECK(bool(code & NodeFace::RES_MISSING) == (nmiss == np), "data are missing if every part of the result is"); if (nf == np) sx_reach("failed"); if (nmiss == np) sx_reach("missing"); sx_reach("end");
}
ENTRY func_values() { func(TIERED(2, 3), 1, true, false, false, sx_choose("uneven", 2)); }
ENTRY func_flags() { func(2, 1, false, true, true, false); }
ENTRY func_planes() { func(2, 2, false, false, false, false); }
// ---- caching: R = S + 2B, S = A + 2B over leaves A, B; leaf values depend on the components of the request id in their mask and on their own state
struct LeafS { int mask, sv, evals, upto; HIID last; bool fresh; double base; } leaf[3];
static const int W_[6] = {0, 3, 50, 700, 11000, 130000};
static double leafValue(int i, const HIID &id) { double v = leaf[i].base + leaf[i].sv * 0.25; for (int k = 1; k < 6; k++) { int x = k < int(id.size()) ? id[k].id() : 0; if (leaf[i].mask & (1 << k)) v += -x * W_[k] * i; } return v; }
struct Leaf : Node {
  Leaf() : Node(0) {} virtual TypeId objectType() const { return AidX; }
  virtual void setStateImpl(DMI::Record::Ref &rec, bool init) { Node::setStateImpl(rec, init); rec[AidY].get(leaf[nodeIndex()].sv, init); }
  virtual int getResult(Result::Ref &ref, const std::vector<Result::Ref> &, const Request &q, bool) {
    int i = nodeIndex(); LeafS &l = leaf[i]; l.evals++; l.last = q.id(); l.fresh = true; l.upto = l.sv; double v = leafValue(i, q.id());
    Result &r = ref <<= new Result(1); VellSet &vs = r.setNewVellSet(0, q.evalMode() > 0, q.evalMode() > 0); vs.setValue(new Vells(v, false)); if (q.evalMode() > 0) { std::vector<int> s(1, i); vs.setSpids(s); vs.setPerturbation(0, 1., 0); vs.setPerturbedValue(0, new Vells(v + 1000000 * i, false), 0); }
    return l.mask;
  }
};
struct LinN : Lin { virtual TypeId objectType() const { return AidY; } };
static DMI::BObj *mkLeaf(int) { return new Leaf; } static DMI::BObj *mkLin(int) { return new LinN; }
static void classes() { DynamicTypeManager::addToRegistry(AidX.id(), mkLeaf); DynamicTypeManager::addToRegistry(AidY.id(), mkLin); }
static NodeFace &mk(Forest &f, int want, const char *cls, const char *name, int c1, int c2, int p1, int p2, int policy) {
  DMI::Record *r = new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass] = string(cls); (*r)[FName] = string(name); (*r)[FNodeIndex] = want; int c[2] = {c1, c2}, p[2] = {p1, p2};
  if (c1) (*r)[FChildren] <<= new DMI::Vec(Tpint, c2 ? 2 : 1, c); if (p1) (*r)[FParents] <<= new DMI::Vec(Tpint, p2 ? 2 : 1, p); if (policy) (*r)[FCachePolicy] = policy; int got; return f.create(got, rr);
}
static HIID rqid(const int *c) { HIID h; if (c[0] < 0) return h; h.resize(6); h[0] = c[0] ? RequestType::EVAL_SINGLE : RequestType::EVAL; for (int k = 1; k < 6; k++) h[k] = AtomicID(-c[k]); return h; }
static void cache(int policy, bool states) {
  classes(); static const int POL[4] = {-10, -1, 10, 20}; Forest f; int p = POL[policy]; bool mixed = (policy == 2 || TIERED(0, 1)) && sx_choose("own", 2);
  mk(f, 1, "X", "A", 0, 0, 3, 0, p); mk(f, 2, "X", "B", 0, 0, 3, 4, p); mk(f, 3, "Y", "S", 1, 2, 4, 0, mixed ? 20 : p); mk(f, 4, "Y", "R", 3, 2, 0, 0, mixed ? -10 : p); 
  for (int i = 1; i < 3; i++) { leaf[i] = LeafS(); leaf[i].mask = (int)sx_bits(nm("mask"), 6) & 0x3e; leaf[i].mask &= TIERED(i == 2 ? 0x10 : states ? 0x14 : 0x12, i == 2 ? 0x12 : 0x16); leaf[i].base = sx_dyadic(nm("base"), 16, 4000, 3); } if (states && sx_choose("untyped", 2)) for (int i = 1; i < 3; i++) leaf[i].mask |= NodeFace::RES_IGNORE_TYPE; f.initAll();
  int c[6] = {0, 1, 1, 1, 1, 1}, N = TIERED(3, 3);
  for (int r = 0; r < N; r++) {
    if (r) { int ch = states ? sx_choose(nm("change"), 4) : sx_choose(nm("change"), TIERED(6, 7)); if (states && ch) ch++; if (ch == 1) c[0] = c[0] ? 0 : 1; else if (ch == 2) c[1]++; else if (ch == 3) c[4]++; else if (ch == 4) { c[2]++; if (states) { int w = 1 + sx_choose(nm("node"), 2); DMI::Record *s = new DMI::Record; DMI::Record::Ref sr(s); (*s)[AidY] = leaf[w].sv + 1; Node &n = dynamic_cast<Node &>(f.get(w)); n.setState(sr); } } else if (ch == 5) c[0] = -1; else if (ch == 6) { c[4]++; c[1]++; } if (c[0] < 0 && ch != 5) c[0] = 1; }
    else c[0] = states ? 0 : sx_choose("derivatives", 2);
    Request::Ref rq; Cells *pc = new Cells; pc->setCells(0, 0., 2., 2); pc->recomputeDomain(); HIID id = rqid(c); rq <<= new Request(pc, id); int hint = policy == 2 && r < N - 1 ? sx_choose(nm("hint"), 3) : 0; if (hint) { int d[6]; for (int k = 0; k < 6; k++) d[k] = c[k]; d[hint == 1 ? 1 : 4]++; HIID nid = rqid(d); rq().setNextId(nid); }
    LeafS old[3] = {leaf[0], leaf[1], leaf[2]}; for (int i = 1; i < 3; i++) leaf[i].evals = 0;
    Result::Ref res; int code = f.get(4).execute(res, *rq, 0); CHECK(!(code & NodeFace::RES_FAIL) && res.valid() && res->numVellSets() == 1, "a request is answered"); const VellSet &vs = res->vellSet(0); CHECK(!vs.isFail() && vs.hasValue(), "a request is answered");
    double a = leafValue(1, id), b = leafValue(2, id); CHECK(at(vs.getValue(), 0) == a + 4 * b, "the result is that of a fresh evaluation");
    if (c[0] == 1) { CHECK(vs.numPertSets() == 1 && vs.numSpids() == 2, "the result is that of a fresh evaluation"); CHECK(at(vs.getPerturbedValue(0, 0), 0) == a + 4 * b + 1000000 && at(vs.getPerturbedValue(1, 0), 0) == a + 4 * b + 8000000, "the result is that of a fresh evaluation"); } else CHECK(vs.numPertSets() == 0, "no derivatives unless asked for");
    if (p >= -1 && !mixed && !id.empty()) CHECK(leaf[2].evals <= 1, "a node with two parents is evaluated once");
    for (int i = 1; i < 3; i++) if (leaf[i].evals && p == 20 && old[i].fresh && !id.empty() && !old[i].last.empty()) { int d = RqId::diffMask(id, old[i].last) & (leaf[i].mask | 1 | (old[i].upto != old[i].sv ? 4 : 0)); CHECK(d, "a cached value that still holds is not evaluated again"); } if (!leaf[1].evals && !leaf[2].evals) sx_reach("cached"); else if (!leaf[1].evals || !leaf[2].evals) sx_reach("partly");
  }
  sx_reach("end");
}
ENTRY cache_requests() { cache(sx_choose("policy", 4), false); }
ENTRY cache_states() { cache(sx_choose("policy", 4), true); }
// ---- polling of children: order, policies for failures and missing data
struct KidS { int state, nf, evals, mask; }; static KidS kid[6]; static int calls[12], ncalls, gotPolicy; // state: 0 value, 1 missing, 2 fail
static int seenValid, seenCalls;
struct Kid : Node {
  Kid() : Node(0) {} virtual TypeId objectType() const { return AidX; }
  virtual int getResult(Result::Ref &ref, const std::vector<Result::Ref> &, const Request &, bool) {
    int i = nodeIndex(); KidS &k = kid[i]; k.evals++; calls[ncalls++] = i; Result &r = ref <<= new Result(k.state == 2 ? k.nf : 1); for (int j = 0; j < r.numVellSets(); j++) { VellSet &vs = r.setNewVellSet(j, 0, 0); if (k.state == 2) { DMI::Record *f = new DMI::Record; ObjRef fr(f); (*f)[AidMessage] = string("kid"); (*f)[AidValue] = i * 10 + j; vs.addFail(fr); } else if (k.state == 0) vs.setValue(new Vells(double(i), false)); }
    return k.mask | (k.state == 2 ? RES_FAIL : k.state == 1 ? RES_MISSING : 0);
  }
};
struct Top : Node {
  Top() : Node(-1, 0, 0) {} virtual TypeId objectType() const { return AidY; }
  virtual int getResult(Result::Ref &ref, const std::vector<Result::Ref> &c, const Request &, bool) { seenCalls++; seenValid = 0; for (unsigned i = 0; i < c.size(); i++) if (c[i].valid()) seenValid |= 1 << i; Result &r = ref <<= new Result(1); r.setNewVellSet(0, 0, 0).setValue(new Vells(42., false)); return 0; }
};
static DMI::BObj *mkKid(int) { return new Kid; } static DMI::BObj *mkTop(int) { return new Top; }
static AtomicID POLICY(int i) { return i == 0 ? AidCollectPropagate : i == 1 ? AidAbandonPropagate : AidIgnore; }
ENTRY poll_children() {
  DynamicTypeManager::addToRegistry(AidX.id(), mkKid); DynamicTypeManager::addToRegistry(AidY.id(), mkTop); Forest f; const int N = 3; static const char *NM[5] = {"", "a", "b", "c", "d"}; int got;
  for (int i = 1; i <= 4; i++) { kid[i] = KidS(); DMI::Record *r = new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass] = string("X"); (*r)[FName] = string(NM[i]); (*r)[FNodeIndex] = i; int par = 5; (*r)[FParents] <<= new DMI::Vec(Tpint, 1, &par); f.create(got, rr); }
  int off = sx_choose("absent", TIERED(2, 3)) - 1; if (off > 0) off = 1; int ch[3] = {1, 2, 3}; if (off >= 0) ch[off] = -1; { DMI::Record *r = new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass] = string("Y"); (*r)[FName] = string("top"); (*r)[FNodeIndex] = 5; (*r)[FChildren] <<= new DMI::Vec(Tpint, 3, ch); int st = 4; (*r)[FStepChildren] <<= new DMI::Vec(Tpint, 1, &st); f.create(got, rr); } f.initAll();
  Node &top = dynamic_cast<Node &>(f.get(5)); int fp = 0, mp = 0, order[3] = {0, 1, 2};
  { int what = sx_choose("settings", 6); DMI::Record *s = new DMI::Record; DMI::Record::Ref sr(s); bool bad = false, thrown = false; int nfp = sx_choose("fail_policy", 3), nmp = sx_choose("missing_policy", 3); (*s)[FFailPolicy] = HIID(POLICY(nfp)); (*s)[FMissingDataPolicy] = HIID(POLICY(nmp));
    static const char *OR[6][4] = {{0}, {"c", "b"}, {"c"}, {"b", "nobody"}, {"c", "c"}, {"c", "b", "b", "c"}}; int len = 0; std::vector<string> o; while (len < 4 && OR[what][len]) o.push_back(OR[what][len++]); if (what) { DMI::Vec *v = new DMI::Vec(Tpstring, len); for (int i = 0; i < len; i++) (*v)[i] = o[i]; (*s)[FChildPollOrder] <<= v; }
    int no[3], n = 0; bool used[3] = {0}; for (int i = 0; i < len; i++) { int c = -1; for (int j = 0; j < N; j++) if (ch[j] > 0 && o[i] == NM[ch[j]]) c = j; if (c < 0 || used[c]) { bad = true; break; } used[c] = true; no[n++] = c; } if (!bad) for (int j = 0; j < N; j++) if (!used[j]) no[n++] = j;
    try { top.setState(sr); } catch (std::exception &) { thrown = true; } CHECK(thrown == bad, "settings that make no sense are refused"); if (!bad) { fp = nfp; mp = nmp; for (int j = 0; j < N; j++) order[j] = no[j]; } else { sx_reach("refused"); fp = -1; } }
  for (int i = 1; i <= 3; i++) { kid[i].state = sx_choose(nm("state"), 3); kid[i].nf = 1 + (i == 2); kid[i].mask = (int)sx_bits(nm("mask"), 6) & 0x3e; }
  Request::Ref rq; int c[6] = {0, 1, 1, 1, 1, 1}; Cells *pc = new Cells; pc->setCells(0, 0., 2., 2); pc->recomputeDomain(); HIID id = rqid(c); rq <<= new Request(pc, id); ncalls = seenCalls = 0; Result::Ref res; int code = top.execute(res, *rq, 0);
  if (fp < 0) { bool seen[5] = {0}; for (int i = 0; i < ncalls; i++) { CHECK(!seen[calls[i]], "no child is polled twice"); seen[calls[i]] = true; } bool stop = false; for (int i = 1; i <= 3; i++) if (kid[i].state) stop = true; if (!stop) CHECK(ncalls == 3 + (off < 0), "refused settings leave the children as they were"); sx_reach("end"); return; }
  int e[5], ne = 0, cum = 0, nfail = 0, fails[8]; bool stop = false; for (int i = 0; i < N && !stop; i++) { int k = order[i]; if (ch[k] < 0) continue; KidS &q = kid[ch[k]]; e[ne++] = ch[k]; cum |= q.mask | (q.state == 2 ? NodeFace::RES_FAIL : q.state == 1 ? NodeFace::RES_MISSING : 0); if (q.state == 2) { for (int j = 0; j < q.nf; j++) fails[nfail++] = ch[k] * 10 + j; stop = fp == 1; } else if (q.state == 1) stop = mp == 1; }
  if (!stop) e[ne++] = 4; CHECK(ncalls == ne, "children are polled in order, unless abandoned"); for (int i = 0; i < ne; i++) CHECK(calls[i] == e[i], "children are polled in order, unless abandoned"); if (stop) sx_reach("abandoned");
  if (fp == 2) cum &= ~NodeFace::RES_FAIL; if (mp == 2) cum &= ~NodeFace::RES_MISSING;
  CHECK(bool(code & NodeFace::RES_FAIL) == bool(cum & NodeFace::RES_FAIL) && (bool(code & NodeFace::RES_MISSING) == bool(cum & NodeFace::RES_MISSING)), "failures and missing data are propagated as the policy says"); CHECK((code & 0x3e) == (cum & 0x3e), "the dependencies are those of the children polled");
  if (cum & NodeFace::RES_FAIL) { CHECK(!seenCalls && res->numVellSets() == nfail, "all failures of children are passed on"); for (int i = 0; i < nfail; i++) { const VellSet &vs = res->vellSet(i); CHECK(vs.isFail(), "all failures of children are passed on"); ObjRef r = vs.getFail(0); CHECK(r.as<DMI::Record>()[AidValue].as<int>() == fails[i], "all failures of children are passed on"); } sx_reach("failed"); }
  else if (cum & NodeFace::RES_MISSING) { CHECK(!seenCalls && res->numVellSets() == 1 && !res->vellSet(0).hasValue() && !res->vellSet(0).isFail(), "missing data is passed on"); sx_reach("missing"); }
  else { int v = 0; for (int k = 0; k < N; k++) if (ch[k] > 0) v |= 1 << k; CHECK(seenCalls == 1 && seenValid == v && at(res->vellSet(0).getValue(), 0) == 42., "a node gets the results of its children"); sx_reach("result"); }
  sx_reach("end");
}
// ---- commands that travel with a request
ENTRY rider_commands() {
  classes(); Forest f; mk(f, 1, "X", "A", 0, 0, 3, 0, 20); mk(f, 2, "X", "B", 0, 0, 3, 0, 20); mk(f, 3, "Y", "S", 1, 2, 0, 0, 20); for (int i = 1; i < 3; i++) { leaf[i] = LeafS(); leaf[i].base = i; leaf[i].mask = 0x10; } f.initAll();
  int group = sx_choose("groups", 3); if (group) { DMI::Record *s = new DMI::Record; DMI::Record::Ref sr(s); DMI::Vec *v = new DMI::Vec(TpDMIHIID, 1); (*v)[0] = HIID(AidGroup); (*s)[FNodeGroups] <<= v; dynamic_cast<Node &>(f.get(group)).setState(sr); }
  int expect[3] = {0, 0, 0}; Request::Ref rq; int c[6] = {0, 1, 1, 1, 1, 1}; Cells *pc = new Cells; pc->setCells(0, 0., 2., 2); pc->recomputeDomain(); HIID id = rqid(c); rq <<= new Request(pc, id);
  DMI::Record *rider = new DMI::Record; ObjRef riderref(rider); static const char *NM[3] = {"S", "A", "B"}; bool bad = false;
  for (int g = 0; g < 2; g++) { if (!sx_choose(g ? "ingroup" : "inall", 2)) continue; DMI::Record *gr = new DMI::Record; (*rider)[g ? HIID(AidGroup) : HIID(FAll)] <<= gr; int all = sx_choose(nm("all"), g ? 2 : 3), list = sx_choose(nm("list"), 5), byi = sx_choose(nm("index"), 4);
    if (all) { DMI::Record *cmd = new DMI::Record; if (all == 2) { (*cmd)[FState] = 5; bad = true; } else { DMI::Record *st = new DMI::Record; (*cmd)[FState] <<= st; int v = (int)sx_bits(nm("value"), 32) & 0xffff; (*st)[AidY] = v; for (int i = 1; i < 3; i++) if (!g || group == i) expect[i] = v; } (*gr)[FCommandAll] <<= cmd; }
    if (list) { DMI::Vec *l = new DMI::Vec(TpDMIRecord, 2); bool hit[3] = {0}; for (int k = 0; k < 2; k++) { DMI::Record *cmd = new DMI::Record; DMI::Record *st = new DMI::Record; (*cmd)[FState] <<= st; int v = (int)sx_bits(nm("value"), 32) & 0xffff; (*st)[AidY] = v; int how = list == 4 ? (k ? 0 : 2) : list == 3 ? (k ? 1 : 2) : list == 2 ? (k ? 0 : 1) : (k ? 0 : 3); // 0: anyone, 1: A by name, 2: B by index, 3: A and B by name
        if (how == 1) (*cmd)[FName] = string("A"); else if (how == 2) (*cmd)[FNodeIndex] = 2; else if (how == 3) { DMI::Vec *w = new DMI::Vec(Tpstring, 2); (*w)[0] = string("B"); (*w)[1] = string("A"); (*cmd)[FName] <<= w; }
        for (int i = 1; i < 3; i++) if ((!g || group == i) && !hit[i] && (how == 0 || how == 3 || how == i)) { hit[i] = true; expect[i] = v; } l->put(k, cmd); } (*gr)[FCommandByList] <<= l; }
    if (byi) { DMI::Record *r = new DMI::Record; int i = byi == 3 ? 7 : byi; DMI::Record *cmd = new DMI::Record; DMI::Record *st = new DMI::Record; (*cmd)[FState] <<= st; int v = (int)sx_bits(nm("value"), 32) & 0xffff; (*st)[AidY] = v; (*r)[HIID(AtomicID(i))] <<= cmd; (*gr)[FCommandByNodeIndex] <<= r; if (i < 3 && (!g || group == i)) expect[i] = v; }
  }
  (void)NM; rq()[FRider] = riderref; rq().validateRider(); Result::Ref res; int code = f.get(3).execute(res, *rq, 0);
  if (bad) { CHECK(code & NodeFace::RES_FAIL, "a command without arguments is an error"); Request::Ref r2; c[4] = 2; Cells *p2 = new Cells; p2->setCells(0, 0., 2., 2); p2->recomputeDomain(); id = rqid(c); r2 <<= new Request(p2, id); Result::Ref x; code = f.get(3).execute(x, *r2, 0); CHECK(!(code & NodeFace::RES_FAIL), "a command that failed does not spoil later requests"); sx_reach("bad"); sx_reach("end"); return; }
  CHECK(!(code & NodeFace::RES_FAIL), "a request with commands is answered"); for (int i = 1; i < 3; i++) CHECK(leaf[i].sv == expect[i] && leaf[i].upto == expect[i], "commands reach exactly the nodes they are for, before the result is worked out"); if (expect[1] || expect[2]) sx_reach("commanded");
  { Result::Ref x; for (int i = 1; i < 3; i++) leaf[i].sv = 99; code = f.get(3).execute(x, *rq, 0); CHECK(leaf[1].sv == 99 && leaf[2].sv == 99, "commands are carried out once"); } sx_reach("end");
}
