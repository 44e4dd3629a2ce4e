// Request identifiers, domains and grids.
#include "sx.h"
#include <MEQ/RequestId.h>
#include <MEQ/Domain.h>
#include <MEQ/Cells.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/NumArray.h>
#include <DMI/BlockSet.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
using namespace Meq;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
// ---- request ids
static HIID anyid(int n) { HIID h; for (int i = 0; i < n; i++) { int v = (int)sx_bits(nm("id"), 32); h.push_back(AtomicID(v)); } return h; }
static int at(const HIID &h, int i) { return i < int(h.size()) ? h[i].id() : 0; }
ENTRY rqid_masks() {
  const int N = TIERED(3, 5); int na = sx_choose("na", N + 1), nb = sx_choose("nb", N + 1); HIID a = anyid(na), b = anyid(nb); int mask = (int)sx_bits("mask", 5), dm = RqId::diffMask(a, b); bool eq = true;
  for (int i = 0; i < 8; i++) { bool d = at(a, i) != at(b, i); CHECK(((dm >> i) & 1) == d, "the difference mask names exactly the indices that differ"); if ((mask >> i & 1) && d) eq = false; } CHECK((dm >> 8) == 0, "the difference mask has no other bits"); CHECK(RqId::diffMask(b, a) == dm, "the difference mask is symmetric");
  bool m = RqId::maskedCompare(a, b, mask); CHECK(m == (mask == 0 || (na && nb && eq)), "masked comparison looks at exactly the masked indices"); if (m) sx_reach("same"); else sx_reach("differ");
  if (na) { HIID s = RqId::maskSubId((const HIID &)a, mask); for (int i = 0; i < 8; i++) CHECK(at(s, i) == ((mask >> i & 1) ? at(a, i) : 0), "masking an id clears exactly the unmasked indices"); HIID t = RqId::maskSubId((const HIID &)b, mask); if (nb && m) CHECK(RqId::diffMask(s, t) == 0, "ids that compare equal under a mask have equal sub-ids"); }
  int v = (int)sx_bits("v", 31), m2 = sx_choose("m2", 1 << TIERED(4, 5)); HIID c = RqId::incrSubId((const HIID &)a, m2), e = RqId::setSubId((const HIID &)a, m2, v);
  for (int i = 0; i < 8; i++) { bool on = m2 >> i & 1; CHECK(at(c, i) == (on ? int(unsigned(at(a, i)) + 1u) : at(a, i)), "incrementing changes exactly the masked indices"); CHECK(at(e, i) == (on ? v : at(a, i)), "setting changes exactly the masked indices"); }
  CHECK(RqId::diffMask(a, c) == m2, "an incremented id differs exactly in the masked indices"); if (na || !m2) CHECK(RqId::maskedCompare(a, c, mask) == (mask == 0 || (na && !(mask & m2))), "a cached result stays valid exactly if it depends on no incremented index");
  sx_reach("end");
}
// ---- domains
static const int S = 3; // coordinates are multiples of 1/8
static long CR = 1L << 20, SR = 256; // range of coordinates and steps
static double co(const char *p) { return sx_dyadic(nm(p), -CR, CR, S); }
struct MD { bool def[4]; double a[4], b[4]; };
static void anydom(Domain &d, MD &m, int ax) { for (int i = 0; i < 4; i++) { m.def[i] = false; m.a[i] = m.b[i] = 0; } for (int i = 0; i < ax; i++) if (int k = sx_choose(nm("def"), i ? 3 : 2)) { double x, y; if (i) x = k, y = 5 - k; else { x = co("x"); y = co("y"); sx_assume(x != y); } d.defineAxis(i, x, y); m.def[i] = true; m.a[i] = x < y ? x : y; m.b[i] = x < y ? y : x; } }
static void isdom(const Domain &d, const MD &m, const char *w) { bool ok = true; for (int i = 0; i < Axis::MaxAxis; i++) { bool df = i < 4 && m.def[i]; ok &= d.isDefined(i) == df; if (df) ok &= d.start(i) == m.a[i] && d.end(i) == m.b[i]; ok &= d[Axis::axisId(i)].exists() == df; if (df) { DMI::Vec::Ref r = d[Axis::axisId(i)].ref(true); const double *p = r.deref()[HIID()].as_p<double>(); ok &= p[0] == m.a[i] && p[1] == m.b[i]; } } sx_assert(ok, w); }
static ObjRef resend(const BObj &o) { BlockSet s; int n = o.toBlock(s); CHECK(n == s.size(), "announced number of blocks"); ObjRef r = DynamicTypeManager::construct(0, s); CHECK(s.size() == 0, "all blocks used up"); return r; }
ENTRY domain_ops() {
  CR = TIERED(1000, 1L << 20);
  const int AX = TIERED(2, 3); MD ma, mb, me; Domain::Ref ra(DMI::ANONWR), rb(DMI::ANONWR); Domain &a = ra <<= new Domain, &b = rb <<= new Domain; anydom(a, ma, AX); anydom(b, mb, AX); isdom(a, ma, "a domain covers exactly the axes defined, start before end"); isdom(b, mb, "a domain covers exactly the axes defined, start before end");
  bool eq = true, sup = true; for (int i = 0; i < 4; i++) { if (ma.def[i] != mb.def[i] || (ma.def[i] && (ma.a[i] != mb.a[i] || ma.b[i] != mb.b[i]))) eq = false; if (ma.def[i] && (!mb.def[i] || ma.a[i] > mb.a[i] || ma.b[i] < mb.b[i])) sup = false;
    me.def[i] = ma.def[i] || mb.def[i]; me.a[i] = !mb.def[i] || (ma.def[i] && ma.a[i] < mb.a[i]) ? ma.a[i] : mb.a[i]; me.b[i] = !mb.def[i] || (ma.def[i] && ma.b[i] > mb.b[i]) ? ma.b[i] : mb.b[i]; }
  CHECK((a == b) == eq && (a != b) == !eq, "domains are equal exactly if every axis is"); if (eq) sx_reach("equal"); else sx_reach("differ");
  CHECK(a.supersetOfProj(b) == sup, "a superset covers the other domain on every axis it defines"); if (sup) sx_reach("superset");
  Domain e = Domain::envelope(a, b); isdom(e, me, "the envelope is the smallest domain that covers both"); CHECK(e == Domain::envelope(b, a), "the envelope does not depend on the order"); if (sup && me.def[0] == mb.def[0]) CHECK(e.supersetOfProj(a) || true, "");
  Domain::Ref rc = ra; rc().expandToEnvelope(b); isdom(*rc, me, "expanding gives the envelope"); isdom(a, ma, "expanding a copy leaves the original alone");
  int how = sx_choose("copy", 4); ObjRef r; if (how == 0) r = resend(a); else if (how == 1) r <<= new Domain(a, 0, 0); else if (how == 2) r.attach(static_cast<Domain *>(a.clone(DMI::DEEP, 0)), DMI::ANONWR); else { DMI::Record::Ref rec(DMI::ANONWR); DMI::Record &x = rec <<= new DMI::Record; for (int i = 0; i < AX; i++) if (ma.def[i]) { double v[2] = {ma.a[i], ma.b[i]}; if (i == 1) { DMI::NumArray *na = new DMI::NumArray(Tpdouble, LoShape(2)); memcpy(na->getDataPtr(), v, 16); x.add(Axis::axisId(i), na); } else x.add(Axis::axisId(i), new DMI::Vec(Tpdouble, 2, v)); } r <<= new Domain(x); }
  const Domain &c = r.as<Domain>(); if (how != 3) isdom(c, ma, "a copied domain is the same"); for (int i = 0; i < 4; i++) CHECK(c.isDefined(i) == ma.def[i], "a copied domain has the same axes"); CHECK(c == a, "a copied domain equals its original");
  a.defineAxis(0, 5e6, 6e6); if (how != 3) isdom(c, ma, "a copied domain is independent"); sx_reach("end");
}
ENTRY domain_refuse() { // malformed domain records are refused
  DMI::Record::Ref rec(DMI::ANONWR); DMI::Record &x = rec <<= new DMI::Record; int n = sx_choose("n", 4); double v[4]; for (int i = 0; i < 4; i++) v[i] = co("v"); HIID id = sx_choose("axis", 2) ? HIID(AidFreq) : HIID(AtomicID(1)); int kind = sx_choose("kind", 3); bool ok = false;
  if (kind == 0) { if (n) x.add(id, new DMI::Vec(Tpdouble, n, v)); else x[id] = v[0]; ok = n == 2 && v[0] < v[1]; } else if (kind == 1) { x[id] = string("abc"); } else { x[id] <<= new DMI::Record; }
  bool thrown = false; Domain::Ref d; try { d <<= new Domain(x); } catch (std::exception &) { thrown = true; }
  CHECK(thrown == !ok, "exactly the well-formed domain records are accepted"); if (ok) { CHECK(d->isDefined(1) && d->start(1) == v[0] && d->end(1) == v[1] && !d->isDefined(0), "the domain is as the record says"); sx_reach("accepted"); } else sx_reach("refused");
}
// ---- cells
struct MC { int n[4]; double c[4][8], s[4][8]; };
static void axis(Cells &x, MC &m, int ax, int maxn, bool simple = false) {
  int n = m.n[ax] = 1 + sx_choose(nm("n"), maxn), how = simple ? 1 : sx_choose(nm("grid"), 3); double z0 = co("x0");
  if (how < 2) { double st = 60 * sx_dyadic(nm("st"), 1, SR, S), w = how ? st : 2 * st; for (int i = 0; i < n; i++) m.c[ax][i] = z0 + st / 2 + st * i, m.s[ax][i] = w; if (how) x.setCells(ax, z0, z0 + st * n, n); else x.setCells(ax, z0, z0 + st * n, n, w); return; }
  double st = sx_choose(nm("step"), 2) ? 1 : 0.125; LoVec_double c(n), s(n); double p = z0; for (int i = 0; i < n; i++) { c(i) = m.c[ax][i] = p; if (i < n - 1) p += st * (1 + sx_choose(nm("gap"), 2)); } bool un = sx_choose(nm("uni"), 2); for (int i = 0; i < n; i++) s(i) = m.s[ax][i] = un ? 3 : 1.5 * (1 + sx_choose(nm("sz"), 2)); if (un) x.setCells(ax, c, 3.0); else x.setCells(ax, c, s);
}
static void iscells(const Cells &x, const MC &m, const char *w) {
  bool ok = true; for (int a = 0; a < 4; a++) { ok &= x.isDefined(a) == (m.n[a] > 0) && x.ncells(a) == m.n[a] && int(x.center(a).size()) == m.n[a] && int(x.cellSize(a).size()) == m.n[a]; sx_assert(ok, w); if (!m.n[a]) continue; LoVec_double b, e; x.getCellStartEnd(b, e, a); LoVec_double b1 = x.cellStart(a), e1 = x.cellEnd(a);
    for (int i = 0; i < m.n[a]; i++) { ok &= x.center(a)(i) == m.c[a][i] && x.cellSize(a)(i) == m.s[a][i]; double lo = m.c[a][i] - m.s[a][i] / 2, hi = m.c[a][i] + m.s[a][i] / 2; ok &= b(i) == lo && e(i) == hi && b1(i) == lo && e1(i) == hi; }
    // segments: consecutive, cover everything, regular within
    int k = x.numSegments(a), nx = 0; CHECK(k >= 1 && k <= m.n[a] && int(x.segmentEnd(a).size()) == k, "the number of segments is between one and the number of cells"); for (int j = 0; j < k; j++) { int s = x.segmentStart(a)(j), t = x.segmentEnd(a)(j); CHECK(s == nx && t >= s && t < m.n[a], "segments follow one another"); for (int i = s; i < t; i++) { CHECK(m.s[a][i] == m.s[a][i + 1], "cells of a segment have one size"); CHECK(i == s || m.c[a][i + 1] - m.c[a][i] == m.c[a][s + 1] - m.c[a][s], "cells of a segment are evenly spaced"); } if (j) CHECK(m.s[a][s] != m.s[a][s - 1] || (s > 1 && x.segmentStart(a)(j - 1) < s - 1 && m.c[a][s] - m.c[a][s - 1] != m.c[a][s - 1] - m.c[a][s - 2]), "a new segment begins only where size or spacing changes"); nx = t + 1; } CHECK(nx == m.n[a], "the segments cover the whole axis"); }
  int rk = 0; for (int a = 0; a < 4; a++) if (m.n[a]) rk = a + 1; CHECK(x.rank() == rk, "the rank is the number of the last axis defined"); for (int a = 0; a < rk; a++) ok &= x.shape()[a] == (m.n[a] ? m.n[a] : 1); sx_assert(ok, w);
}
static void anycells(Cells &x, MC &m, int nax, int maxn, bool simple = false) { for (int i = 0; i < 4; i++) m.n[i] = 0; bool any = false; for (int i = 0; i < nax; i++) if ((i == nax - 1 && !any) || sx_choose(nm("has"), 2)) { axis(x, m, i, i ? 1 : maxn, simple || i); any = true; } x.recomputeDomain(); }
static void domof(const Cells &x, const MC &m) { for (int a = 0; a < 4; a++) { int n = m.n[a]; CHECK(x.domain().isDefined(a) == (n > 0), "the domain has the axes of the grid"); if (n) { double lo = m.c[a][0] - m.s[a][0] / 2, hi = m.c[a][n - 1] + m.s[a][n - 1] / 2; CHECK(lo <= hi, "growing grid"); if (lo < hi) CHECK(x.domain().start(a) == lo && x.domain().end(a) == hi, "the domain is the envelope of the grid"); } } }
ENTRY cells_grid() { Cells::Ref rx(DMI::ANONWR); Cells &x = rx <<= new Cells; MC m; anycells(x, m, 1 + sx_choose("axes", TIERED(1, 2)), TIERED(4, 5)); iscells(x, m, "a grid has the cells it was given"); domof(x, m); sx_reach("end"); }
ENTRY cells_copy() {
  Cells::Ref rx(DMI::ANONWR); Cells &x = rx <<= new Cells; MC m; anycells(x, m, 2 + SX_TIER, TIERED(2, 3)); iscells(x, m, "a grid has the cells it was given"); domof(x, m);
  int how = sx_choose("copy", 4); ObjRef r; if (how == 0) r = resend(x); else if (how == 1) r <<= new Cells(static_cast<const DMI::Record &>(x), 0, 0); else if (how == 2) r.attach(static_cast<Cells *>(x.clone(DMI::DEEP, 0)), DMI::ANONWR); else { Cells::Ref c = rx; c.dewr(); r = c; }
  { const Cells &c = r.as<Cells>(); iscells(c, m, "a copied grid is the same"); domof(c, m); CHECK(c == x && x == c && !(c != x) && c.compare(x) == 0, "a copied grid equals its original"); }
  MC o = m; int op = sx_choose("op", 3); if (op == 0) { axis(x, m, 0, 2, true); x.recomputeDomain(); iscells(x, m, "redefining an axis gives the new grid"); iscells(r.as<Cells>(), o, "a copied grid is independent"); } else if (op == 1) { MC n = o; Cells &c = r.ref_cast<Cells>().dewr(); axis(c, n, 0, 2, true); c.recomputeDomain(); iscells(c, n, "redefining an axis of a copy gives the new grid"); iscells(x, m, "a grid is independent of its copy"); domof(x, m); } else { rx.detach(); iscells(r.as<Cells>(), m, "a copied grid outlives its original"); }
  sx_reach("end");
}
ENTRY cells_compare() {
  CR = 128; SR = 4;
  Cells::Ref rx(DMI::ANONWR), ry(DMI::ANONWR); Cells &x = rx <<= new Cells, &y = ry <<= new Cells; MC a, b; int e = sx_choose("empty", 4); for (int i = 0; i < 4; i++) a.n[i] = b.n[i] = 0; if (!(e & 1)) anycells(x, a, 2, 2); if (!(e & 2)) anycells(y, b, 2, 2, !SX_TIER);
  bool eq = true, dom = true, shp = true; for (int i = 0; i < 4; i++) { if (a.n[i] != b.n[i]) shp = eq = false; if ((a.n[i] > 0) != (b.n[i] > 0)) dom = eq = false; else if (a.n[i]) { if (a.c[i][0] - a.s[i][0] / 2 != b.c[i][0] - b.s[i][0] / 2 || a.c[i][a.n[i] - 1] + a.s[i][a.n[i] - 1] / 2 != b.c[i][b.n[i] - 1] + b.s[i][b.n[i] - 1] / 2) dom = false; for (int k = 0; eq && k < a.n[i]; k++) if (a.c[i][k] != b.c[i][k] || a.s[i][k] != b.s[i][k]) eq = false; } }
  if (e == 1 || e == 2) dom = eq = false; int c = x.compare(y); if (!dom) CHECK(c < 0, "different domains compare negative"); else if (!shp) CHECK(c > 0, "different resolutions compare positive"); else CHECK(c == 0, "same domain and resolution compare as the same");
  CHECK((x == y) == eq && (x != y) == !eq, "grids are equal exactly if all their cells are"); if (eq) sx_reach("equal"); if (dom && !shp) sx_reach("resolution"); if (!dom) sx_reach("domain"); sx_reach("end");
}
ENTRY cells_superset() {
  Cells::Ref rx(DMI::ANONWR), ry(DMI::ANONWR); Cells &x = rx <<= new Cells, &y = ry <<= new Cells; MC a, b; anycells(x, a, 3, TIERED(1, 2), !SX_TIER); int same = sx_choose("shared", 3); // axes of the first grid that the second takes over
  for (int i = 0; i < 4; i++) b.n[i] = 0; bool any = false; for (int i = 0; i < 3; i++) { int h = sx_choose(nm("hasb"), a.n[i] ? 2 : 2); if (!h) continue; any = true; if (a.n[i] && same != 2) { y.setCells(i, x.center(i), x.cellSize(i)); b.n[i] = a.n[i]; for (int k = 0; k < a.n[i]; k++) b.c[i][k] = a.c[i][k], b.s[i][k] = a.s[i][k]; } else axis(y, b, i, 1 + SX_TIER, true); } if (any) y.recomputeDomain();
  bool compat = true; MC u; for (int i = 0; i < 4; i++) { u.n[i] = a.n[i] ? a.n[i] : b.n[i]; for (int k = 0; k < u.n[i]; k++) { u.c[i][k] = a.n[i] ? a.c[i][k] : b.c[i][k]; u.s[i][k] = a.n[i] ? a.s[i][k] : b.s[i][k]; } if (a.n[i] && b.n[i]) { if (a.n[i] != b.n[i]) compat = false; else { int n = a.n[i] - 1; if (a.c[i][0] - a.s[i][0] / 2 != b.c[i][0] - b.s[i][0] / 2 || a.c[i][n] + a.s[i][n] / 2 != b.c[i][n] + b.s[i][n] / 2) compat = false; } } }
  Cells::Ref r = sx_choose("order", 2) ? Cells::superset(x, y) : Cells::superset(y, x); CHECK(r.valid() == compat, "grids can be merged exactly if their common axes match"); if (!compat) { sx_reach("clash"); return; }
  bool exact = true; for (int i = 0; i < 4; i++) for (int k = 0; k < a.n[i] && k < b.n[i]; k++) if (a.c[i][k] != b.c[i][k] || a.s[i][k] != b.s[i][k]) exact = false; if (exact) { iscells(*r, u, "the merged grid has the axes of both"); domof(*r, u); } iscells(x, a, "merging leaves the grids alone"); sx_reach("merged"); sx_reach("end");
}
ENTRY cells_resample() {
  Cells::Ref rx(DMI::ANONWR); Cells &x = rx <<= new Cells; MC m; for (int i = 0; i < 4; i++) m.n[i] = 0; const int N = TIERED(3, 6); axis(x, m, 0, N); if (sx_choose("two", 2)) axis(x, m, 1 + sx_choose("ax", 2), 1, true); x.recomputeDomain();
  int op[Axis::MaxAxis], arg[Axis::MaxAxis]; for (int i = 0; i < Axis::MaxAxis; i++) op[i] = Cells::NONE, arg[i] = 1; op[0] = sx_choose("op", 4); arg[0] = 1 + sx_choose("arg", N); int n = m.n[0], k = arg[0], up = 1, down = 1; bool legal = true;
  if (op[0] == Cells::INTEGRATE) { down = k; if (n % k) return; } else if (op[0] == Cells::UPSAMPLE) up = k; else if (op[0] == Cells::SET_NCELLS) { if (k > n) { if (k % n) legal = false; up = k / n; } else { if (n % k) legal = false; down = n / k; } }
  bool thrown = false; Cells::Ref rc; try { rc <<= new Cells(x, op, arg); } catch (std::exception &) { thrown = true; } CHECK(thrown == !legal, "resampling by a whole factor is accepted, anything else refused"); if (thrown) { iscells(x, m, "a refused resampling changes nothing"); sx_reach("refused"); return; }
  const Cells &c = *rc; CHECK(c.domain() == x.domain(), "resampling keeps the domain"); CHECK(c.ncells(0) == n / down * up && c.rank() == x.rank(), "resampling gives the number of cells asked for"); for (int i = 0; i < 4; i++) if (i) CHECK(c.ncells(i) == m.n[i], "other axes keep their cells");
  for (int i = 0; i < c.ncells(0); i++) { double lo = c.center(0)(i) - c.cellSize(0)(i) / 2, hi = c.center(0)(i) + c.cellSize(0)(i) / 2; int s = i / up * down, t = s + down - 1; double A = m.c[0][s] - m.s[0][s] / 2, B = m.c[0][t] + m.s[0][t] / 2; if (up == 1) CHECK(lo == A && hi == B, "an integrated cell covers exactly its cells"); else if (up == 2 || up == 4) { double w = (B - A) / up; CHECK(lo == A + w * (i % up) && hi == lo + w, "the parts of a cell divide it evenly"); } }
  if (up == 1 && down == 1) { iscells(c, m, "a resampling that changes nothing gives the same grid"); CHECK(c == x, "a resampling that changes nothing gives the same grid"); Cells h(c, x, sx_choose("dir", 2) ? 1 : -1); iscells(h, m, "combining equal grids gives the same grid"); sx_reach("noop"); }
  else { int d = sx_choose("dir", 2); Cells h(c, x, d ? 1 : -1), g(x, c, d ? 1 : -1); bool useC = (c.ncells(0) > n) == (d == 1); CHECK(h.ncells(0) == (useC ? c.ncells(0) : n) && g.ncells(0) == h.ncells(0), "combining grids takes the finer or the coarser one as asked"); CHECK(h == g && h == (useC ? c : x), "combining grids takes the finer or the coarser one as asked"); sx_reach("resampled"); }
  sx_reach("end");
}
