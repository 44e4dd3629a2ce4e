// Value sets (main value, perturbed values, flags, weights, fails) and results (tensors of value sets on a grid).
#include "sx.h"
#include <MEQ/Result.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/BlockSet.h>
#include <DMI/List.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
using namespace Meq;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static ObjRef resend(const BObj &o) { BlockSet s; int n = o.toBlock(s); CHECK(n == s.size(), "announced number of blocks"); ObjRef r = DynamicTypeManager::construct(0, s); CHECK(s.size() == 0, "all blocks used up"); return r; }
static const int SH[5][3] = {{1, 1, 1}, {1, 2, 1}, {2, 1, 2}, {1, 3, 1}, {2, 2, 2}}; // rank, extents
struct MV { int sh, n; double x[4]; int f[4]; };
struct MS { int shp[2]; bool fail; int nf, msg[3]; bool hv, hf, hw; MV v, f, w; int ns, sp[2], np; double pt[2][2]; bool hp[2][2]; MV p[2][2]; };
static LoShape shp(int s) { return SH[s][0] == 1 ? LoShape(SH[s][1]) : LoShape(SH[s][1], SH[s][2]); }
static Vells *mkv(MV &m, int nsh = 5) { m.sh = sx_choose(nm("shape"), nsh); m.n = SH[m.sh][1] * SH[m.sh][2]; Vells *v = new Vells(0., shp(m.sh), false); for (int i = 0; i < m.n; i++) ((double *)v->getDataPtr())[i] = m.x[i] = sx_dyadic(nm("x"), -1 << 20, 1 << 20, 3); return v; }
static Vells *mkf(MV &m, int nsh = 5) { m.sh = sx_choose(nm("shape"), nsh); m.n = SH[m.sh][1] * SH[m.sh][2]; Vells *v = new Vells(shp(m.sh), 0, false); for (int i = 0; i < m.n; i++) ((int *)v->getDataPtr())[i] = m.f[i] = (int)sx_bits(nm("f"), 32); return v; }
static bool shapeok(const Vells &v, const MV &m) { bool ok = v.rank() == SH[m.sh][0] && v.nelements() == m.n; for (int i = 0; i < v.rank() && ok; i++) ok = v.extent(i) == SH[m.sh][1 + i]; return ok; }
static bool samev(const Vells &v, const MV &m) { if (!v.isReal() || !shapeok(v, m)) return false; bool ok = true; for (int i = 0; i < m.n; i++) ok &= ((const double *)v.getConstDataPtr())[i] == m.x[i]; return ok; }
static bool samef(const Vells &v, const MV &m) { if (!v.isFlags() || !shapeok(v, m)) return false; bool ok = true; for (int i = 0; i < m.n; i++) ok &= ((const int *)v.getConstDataPtr())[i] == m.f[i]; return ok; }
static bool clash(const LoShape &s, int sh) { for (int i = 0; i < SH[sh][0] && i < int(s.size()); i++) { int e = SH[sh][1 + i]; if (e > 1 && s[i] > 1 && s[i] != e) return true; } return false; }
static bool covers(const LoShape &s, int sh) { for (int i = 0; i < SH[sh][0]; i++) { int e = SH[sh][1 + i]; if (e > 1 && (i >= int(s.size()) || s[i] != e)) return false; } return true; }
static void isset(const VellSet &s, const MS &m) {
  CHECK(s.isFail() == m.fail, "a value set is a fail exactly if a fail was added");
  CHECK(s.hasValue() == m.hv && s.hasDataFlags() == m.hf && s.hasDataWeights() == m.hw, "a value set has exactly the parts that were set"); CHECK(s.numSpids() == m.ns, "a value set has exactly the parts that were set");
  if (m.fail) { CHECK(s.numFails() == m.nf, "every fail added is kept"); for (int i = 0; i < m.nf; i++) { ObjRef r = s.getFail(i); CHECK(r.as<DMI::Record>()[AidMessage].as<int>() == m.msg[i], "every fail added is kept in order"); } return; }
  if (m.hv) { const Vells &v = s.getValue(); CHECK(samev(v, m.v), "the main value is the one set"); CHECK(v.hasDataFlags() == m.hf, "values carry the flags of the set"); if (m.hf) CHECK(samef(v.dataFlags(), m.f), "values carry the flags of the set"); CHECK(covers(s.shape(), m.v.sh), "the shape covers every value"); }
  if (m.hf) { CHECK(samef(s.dataFlags(), m.f), "the flags are the ones set"); CHECK(covers(s.shape(), m.f.sh), "the shape covers every value"); }
  if (m.hw) { CHECK(samev(s.dataWeights(), m.w), "the weights are the ones set"); CHECK(covers(s.shape(), m.w.sh), "the shape covers every value"); }
  if (m.ns) CHECK(s.numPertSets() == m.np, "the number of perturbation sets is the one set");
  for (int i = 0; i < m.ns; i++) { CHECK(s.getSpid(i) == m.sp[i], "the solvable ids are the ones set"); int k = i; bool dup = false; int r = s.isDefined(m.sp[i], k); CHECK(r == i && k == i + 1 && !dup, "an id is found where it was put");
    for (int j = 0; j < m.np; j++) { CHECK(s.getPerturbation(i, j) == m.pt[j][i], "the perturbations are the ones set"); if (m.hp[j][i]) { const Vells &v = s.getPerturbedValue(i, j); CHECK(samev(v, m.p[j][i]), "the perturbed values are the ones set"); CHECK(v.hasDataFlags() == m.hf, "values carry the flags of the set"); if (m.hf) CHECK(samef(v.dataFlags(), m.f), "values carry the flags of the set"); CHECK(covers(s.shape(), m.p[j][i].sh), "the shape covers every value"); } } }
  { std::vector<int> sv; if (s[FShape].get_vector(sv)) { bool ok = sv.size() == s.shape().size(); for (unsigned i = 0; ok && i < sv.size(); i++) ok = sv[i] == s.shape()[i]; CHECK(ok, "the shape field is the shape"); } else CHECK(!s.hasShape(), "the shape field is the shape"); }
}
static void clr(MS &m) { memset(&m, 0, sizeof m); m.np = 1; }
static ObjRef mkfail(int &msg) { msg = (int)sx_bits(nm("msg"), 32); DMI::Record *r = new DMI::Record; ObjRef ref(r); (*r)[AidMessage] = msg; return ref; }
static void init(MS &m, VellSet &s, int how) { // starting configurations
  if (how == 0) return;
  if (how >= 2) { std::vector<int> sp(how - 1); for (int i = 0; i < how - 1; i++) sp[i] = m.sp[i] = 3 + 4 * i; s.setSpids(sp); m.ns = how - 1; for (int j = 0; j < m.np; j++) for (int i = 0; i < m.ns; i++) m.pt[j][i] = 0; }
  Vells *v = mkv(m.v, 3); s.setValue(v); m.hv = true;
  for (int j = 0; j < m.np; j++) for (int i = 0; i < m.ns; i++) { m.pt[j][i] = sx_dyadic(nm("pt"), -1000, 1000, 3); s.setPerturbation(i, m.pt[j][i], j); m.p[j][i] = m.v; m.hp[j][i] = true; Vells *p = new Vells(0., shp(m.v.sh), false); for (int k = 0; k < m.v.n; k++) ((double *)p->getDataPtr())[k] = m.p[j][i].x[k] = k + 10 * i + 100 * j; s.setPerturbedValue(i, p, j); }
}
static int NF = TIERED(4, 5), NP = 12;
static void step(VellSet &s, MS &m) {
  static const int pre[4] = {0, 5, 7, 10}; int op = sx_choose(nm("op"), NP); if (NP == 4) op = pre[op]; if (m.fail && op) return; LoShape old = s.shape(); bool thrown = false, bad = false; MV t; const int F = NF;
  try { switch (op) {
    case 0: { int k = sx_choose(nm("fails"), 3); bool list = k > 0; int c[2]; ObjRef r; if (list) { DMI::List *l = new DMI::List; r <<= l; for (int i = 0; i < k; i++) { ObjRef e = mkfail(c[i]); l->addBack(e); } } else r = mkfail(c[0]); int n = m.fail ? m.nf : 0, mm[3]; memcpy(mm, m.msg, sizeof mm); if (n + (list ? k : 1) > 3) return; s.addFail(r); clr(m); m.fail = true; memcpy(m.msg, mm, sizeof mm); for (int i = 0; i < (list ? k : 1); i++) m.msg[n + i] = c[i]; m.nf = n + (list ? k : 1); sx_reach("fail"); break; }
    case 1: { Vells *v = mkv(t, F); bad = clash(old, t.sh); s.setValue(v); m.v = t; m.hv = true; break; }
    case 2: { int n = 1 + sx_choose(nm("nsp"), 2); std::vector<int> sp(n); int c[2]; for (int i = 0; i < n; i++) sp[i] = c[i] = (int)sx_bits(nm("spid"), 31); bad = m.ns && n != m.ns; s.setSpids(sp); if (!m.ns) { m.ns = n; for (int j = 0; j < 2; j++) for (int i = 0; i < n; i++) m.pt[j][i] = 0, m.hp[j][i] = false; } for (int i = 0; i < n; i++) m.sp[i] = c[i]; break; }
    case 3: { if (!m.ns || !m.np) return; int i = sx_choose(nm("i"), m.ns), j = sx_choose(nm("j"), m.np); if (sx_choose(nm("all"), 2)) { int n = 1 + sx_choose(nm("n"), 2); std::vector<double> pv(n); double c[2]; for (int k = 0; k < n; k++) pv[k] = c[k] = sx_dyadic(nm("pt"), -1000, 1000, 3); bad = n != m.ns; s.setPerturbations(pv, j); for (int k = 0; k < n; k++) m.pt[j][k] = c[k]; } else { double c = sx_dyadic(nm("pt"), -1000, 1000, 3); s.setPerturbation(i, c, j); m.pt[j][i] = c; } break; }
    case 4: { if (!m.ns || !m.np) return; int i = sx_choose(nm("i"), m.ns), j = sx_choose(nm("j"), m.np); Vells *v = mkv(t, F); bad = clash(old, t.sh); s.setPerturbedValue(i, v, j); m.p[j][i] = t; m.hp[j][i] = true; break; }
    case 5: { Vells *v = mkf(t, F); Vells::Ref r(v); bad = clash(old, t.sh); s.setDataFlags(r); m.f = t; m.hf = true; sx_reach("flagged"); break; }
    case 6: s.clearDataFlags(); m.hf = false; break;
    case 7: { Vells *v = mkv(t, F); Vells::Ref r(v); bad = clash(old, t.sh); s.setDataWeights(r); m.w = t; m.hw = true; break; }
    case 8: s.clearDataWeights(); m.hw = false; break;
    case 9: { int k = sx_choose(nm("np"), 3); if (k && k == m.np) return; bad = k && m.np && k != m.np; s.setNumPertSets(k); if (k == 0) m.ns = m.np = 0; else if (m.np != k) { m.np = k; for (int j = 0; j < k; j++) for (int i = 0; i < m.ns; i++) m.pt[j][i] = 0, m.hp[j][i] = false; } break; }
    case 10: s.verifyShape(sx_choose(nm("reset"), 2)); break;
    case 11: { int w = sx_choose(nm("bump"), 2); if (w == 0) { if (!m.hv) return; ((double *)s.getValueWr().getDataPtr())[0] = m.v.x[0] = sx_dyadic(nm("x"), -1000, 1000, 3); } else { if (!m.ns || !m.np || !m.hp[0][0]) return; ((double *)s.getPerturbedValueWr(0, 0).getDataPtr())[0] = m.p[0][0].x[0] = sx_dyadic(nm("x"), -1000, 1000, 3); } break; }
  } } catch (std::exception &) { thrown = true; }
  CHECK(thrown == bad, "exactly shapes and counts that do not conform are refused"); if (thrown) sx_reach("refused"); isset(s, m);
}
ENTRY vset_history() {
  MS m; clr(m); m.np = 1 + sx_choose("sets", 2); VellSet::Ref rs; VellSet &s = rs <<= new VellSet(0, m.np); int st = sx_choose("start", 4); init(m, s, st); isset(s, m); int n = TIERED(2, 3); for (int i = 0; i < n; i++) step(s, m); sx_reach("end");
}
ENTRY vset_copy() {
  MS m; clr(m); int st = sx_choose("start", 4); m.np = st == TIERED(2, 0) ? 1 : 1 + sx_choose("sets", 2); if (!SX_TIER && st < 2 && m.np > 1) return; VellSet::Ref rs; VellSet &s0 = rs <<= new VellSet(0, m.np); init(m, s0, st); NF = 2; NP = 4; step(s0, m); NP = 12; NF = TIERED(2, 3); if (m.ns && !m.hv) return; // ids without a main value: not a complete set
  int how = sx_choose("copy", 6); VellSet::Ref rc; ObjRef ro; if (how == 0) { ro = resend(s0); rc = ro.ref_cast<VellSet>(); } else if (how == 1) rc <<= new VellSet(static_cast<const DMI::Record &>(s0)); else if (how == 2) rc.attach(static_cast<VellSet *>(s0.clone(0, 0)), DMI::ANONWR); else if (how == 3) { rc = rs; rc.dewr(); } else if (how == 4) rc <<= new VellSet(s0); else rc.attach(static_cast<VellSet *>(s0.clone(DMI::DEEP, 0)), DMI::ANONWR);
  MS c = m; if (m.ns == 0) c.np = rc->numPertSets(); isset(*rc, c); isset(*rs, m); sx_reach("copied"); int side = sx_choose("side", 3); if (side == 0) { step(rc.dewr(), c); } else if (side == 1) { step(rs.dewr(), m); } else { rs.detach(); isset(*rc, c); sx_reach("end"); return; }
  isset(*rc, c); isset(*rs, m); sx_reach("end");
}
// ---- results
struct MR { int n, nd, d[3], set[4]; int a[4]; int cells; int nc[2]; }; // set: 0 none, 1 scalar value, 2 variable value, 3 fail
static int prod(const MR &m) { int p = 1; for (int i = 0; i < m.nd; i++) p *= m.d[i]; return p; }
static bool varies(const MR &m) { for (int i = 0; i < m.n; i++) if (m.set[i] == 2) return true; return false; }
static void isres(const Result &r, const MR &m, bool idx = false) {
  CHECK(r.numVellSets() == m.n, "a result has the number of value sets asked for"); CHECK(r.tensorRank() == m.nd && int(r.dims().size()) == m.nd, "a result has the dimensions asked for"); for (int i = 0; i < m.nd; i++) CHECK(r.dims()[i] == m.d[i], "a result has the dimensions asked for");
  bool hf = false; int nf = 0; for (int i = 0; i < m.n; i++) { const VellSet &v = r.vellSet(i); CHECK(v.isFail() == (m.set[i] == 3) && v.hasValue() == (m.set[i] == 1 || m.set[i] == 2), "every value set stays where it was put"); if (v.hasValue()) { const Vells &x = v.getValue(); CHECK(x.nelements() == (m.set[i] == 2 ? 2 : 1), "every value set stays where it was put"); CHECK(*(const double *)x.getConstDataPtr() == m.a[i], "every value set stays where it was put"); } if (m.set[i] == 3) { nf++; CHECK(v.getFail(0).as<DMI::Record>()[AidMessage].as<int>() == m.a[i], "every value set stays where it was put"); } }
  CHECK(r.hasFails() == (nf > 0) && r.numFails() == nf, "fails are counted"); if (m.cells == 1) { CHECK(r.hasCells(), "the grid is attached when a value varies"); CHECK(r.cells().ncells(0) == 2 && r.cells().center(0)(1) == 1.5, "the grid is the one attached"); } else if (m.cells == 0) CHECK(!r.hasCells(), "a result without variable values has no grid");
  if (m.nd && idx) { int k[3], off = 0; Result::TIndex t(m.nd | LoShape::SETRANK); bool ok = true; for (int i = 0; i < m.nd; i++) { k[i] = t[i] = (int)sx_range(nm("k"), -1, 3); if (k[i] < 0 || k[i] >= m.d[i]) ok = false; off = off * m.d[i] + k[i]; } bool thrown = false; int o = -1; try { o = r.getOffsetChk(t); } catch (std::exception &) { thrown = true; } CHECK(thrown == !ok, "indices out of range are refused"); if (ok) { CHECK(o == off && r.getOffset(t) == off, "indices select value sets in row-major order"); } if (m.nd == 2) { thrown = false; o = -1; try { o = r.getOffsetChk(k[0], k[1]); } catch (std::exception &) { thrown = true; } CHECK(thrown == !ok && (thrown || o == off), "indices select value sets in row-major order"); } }
}
static const int DD[8][4] = {{0}, {1, 1}, {1, 2}, {1, 3}, {2, 1, 2}, {2, 2, 2}, {2, 1, 1}, {3, 1, 1, 2}};
static void setd(MR &m, int k) { m.nd = DD[k][0]; for (int i = 0; i < m.nd; i++) m.d[i] = DD[k][1 + i]; m.n = prod(m); if (m.n == 1) m.nd = 0; }
static Result::Dims mkd(int k) { Result::Dims d(DD[k][0] | LoShape::SETRANK); for (int i = 0; i < DD[k][0]; i++) d[i] = DD[k][1 + i]; return d; }
static void rstep(Result &r, MR &m) {
  int op = sx_choose(nm("rop"), 5); bool thrown = false, bad = false; MR n = m;
  try { switch (op) {
    case 0: { if (!m.n) return; int i = sx_choose(nm("i"), m.n), w = 1 + sx_choose(nm("w"), 3); n.set[i] = w; if (w == 3) { VellSet *v = new VellSet(0, 1); VellSet::Ref rv(v); v->addFail(mkfail(n.a[i])); r.setVellSet(i, rv); } else { n.a[i] = (int)sx_range(nm("a"), -100, 100); VellSet &v = r.setNewVellSet(i, 0, 1); Vells *x = new Vells(0., LoShape(w), false); *(double *)x->getDataPtr() = n.a[i]; if (w == 2) ((double *)x->getDataPtr())[1] = 7; v.setValue(x); } n.cells = -1; if (w == 2) sx_reach("variable"); break; }
    case 1: { int k = sx_choose(nm("dims"), 8); MR q = m; setd(q, k); bad = m.n && q.n != m.n; int was = m.n; int c = r.setDims(mkd(k)); CHECK(c == q.n, "setting dimensions tells the number of value sets"); n = q; if (!was) { for (int i = 0; i < 4; i++) n.set[i] = 0; } break; }
    case 2: { bool fit = sx_choose(nm("fit"), 2); Cells::Ref c(DMI::ANONWR); Cells *pc = new Cells; c <<= pc; pc->setCells(0, 0., fit ? 2. : 3., fit ? 2 : 3); pc->recomputeDomain(); bad = varies(m) && !fit; r.setCells(*c); n.cells = varies(m); break; }
    case 3: { bad = varies(m); r.clearCells(); n.cells = 0; break; }
    case 4: { if (!m.n) return; int i = sx_choose(nm("i"), m.n); if (m.set[i] != 1 && m.set[i] != 2) return; n.a[i] = (int)sx_range(nm("a"), -100, 100); *(double *)r.vellSetWr(i).getValueWr().getDataPtr() = n.a[i]; break; }
  } } catch (std::exception &) { thrown = true; }
  CHECK(thrown == bad, "exactly grids and dimensions that do not fit are refused"); if (thrown) sx_reach("refused"); else m = n; isres(r, m);
}
static void rinit(Result::Ref &rr, MR &m, bool few = false) { static const int fd[5] = {8, 1, 2, 4, 6}; memset(&m, 0, sizeof m); int k = few ? fd[sx_choose("dims0", 5)] : sx_choose("dims0", 9); if (k == 8) { m.n = sx_choose("nvs", 3); m.nd = m.n > 1; m.d[0] = m.n; rr <<= new Result(m.n); } else { setd(m, k); rr <<= new Result(mkd(k)); } }
ENTRY result_history() { MR m; Result::Ref rr; rinit(rr, m); isres(*rr, m); for (int i = 0; i < TIERED(2, 3); i++) rstep(rr(), m); isres(*rr, m, true); sx_reach("end"); }
ENTRY result_copy() {
  MR m; Result::Ref rr; rinit(rr, m, true); Result &r0 = rr(); if (m.n) { int w = sx_choose("first", 4), i = sx_choose("where", m.n); m.set[i] = w; if (w == 3) { VellSet *v = new VellSet(0, 1); VellSet::Ref rv(v); v->addFail(mkfail(m.a[i])); r0.setVellSet(i, rv); } else if (w) { m.a[i] = (int)sx_range(nm("a"), -100, 100); VellSet &v = r0.setNewVellSet(i, 0, 1); Vells *x = new Vells(0., LoShape(w), false); *(double *)x->getDataPtr() = m.a[i]; if (w == 2) { ((double *)x->getDataPtr())[1] = 7; sx_reach("variable"); } v.setValue(x); if (w == 2) { Cells::Ref c(DMI::ANONWR); Cells *pc = new Cells; c <<= pc; pc->setCells(0, 0., 2., 2); pc->recomputeDomain(); r0.setCells(*c); m.cells = 1; } } }
  if (TIERED(0, 1)) rstep(rr(), m); if (varies(m) && m.cells != 1) return; if (m.cells < 0 && !varies(m)) m.cells = -1; MR c = m; // a variable result without a grid is not complete
  int how = sx_choose("copy", 6); Result::Ref rc; ObjRef ro; Result &r = rr(); if (how == 0) { ro = resend(r); rc = ro.ref_cast<Result>(); } else if (how == 1) rc <<= new Result(static_cast<const DMI::Record &>(r)); else if (how == 2) rc.attach(static_cast<Result *>(r.clone(0, 0)), DMI::ANONWR); else if (how == 3) { rc = rr; rc.dewr(); } else if (how == 4) rc <<= new Result(r); else rc.attach(static_cast<Result *>(r.clone(DMI::DEEP, 0)), DMI::ANONWR);
  if (c.cells < 0) c.cells = varies(c); isres(*rc, c); isres(*rr, m); sx_reach("copied"); if (sx_choose("side", 2)) rstep(rc(), c); else rstep(rr(), m); isres(*rc, c); isres(*rr, m); sx_reach("end");
}
