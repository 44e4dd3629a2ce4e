// Vells arithmetic, flags and reductions.
#include "sx.h"
#include <MEQ/Vells.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/BlockSet.h>
#include <cstdio>
#include <cstring>
#include <complex>
#include <exception>
using namespace DMI;
using namespace Meq;
typedef std::complex<double> C;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static long CR = 1L << 20;
static bool pos_; // divisors are distinct and (with |z|^2) powers of two
static int dv_;
static double co(const char *p) { if (pos_) { static const double d[6] = {2, 2, -4, 4, 0.5, -0.5}; return d[dv_++ % 6] * (1 << dv_ / 6); } return sx_dyadic(nm(p), -CR, CR, 3); }
// model array: rank, extents, values
struct M { int r, e[3], n; bool cx; double re[12], im[12]; int fl[12]; };
static LoShape shapeOf(const M &m) { return m.r == 1 ? LoShape(m.e[0]) : m.r == 2 ? LoShape(m.e[0], m.e[1]) : LoShape(m.e[0], m.e[1], m.e[2]); }
static void anyshape(M &m, int maxr, int maxe, const char *p) { m.r = 1 + sx_choose(nm(p), maxr); m.n = 1; for (int i = 0; i < 3; i++) m.e[i] = 1; for (int i = 0; i < m.r; i++) { m.e[i] = 1 + sx_choose(nm("ext"), maxe); m.n *= m.e[i]; } }
static int at(const M &m, int i, int j, int k) { int x[3] = {i, j, k}, o = 0; for (int d = 0; d < m.r; d++) o = o * m.e[d] + (m.e[d] == 1 ? 0 : x[d]); return o; }
static Vells *make(M &m) { // fill with symbolic values
  LoShape s = shapeOf(m); Vells *v; if (m.cx) { v = new Vells(C(0, 0), s, false); for (int i = 0; i < m.n; i++) { m.re[i] = co("re"); m.im[i] = co("im"); ((C *)v->getDataPtr())[i] = C(m.re[i], m.im[i]); } } else { v = new Vells(0., s, false); for (int i = 0; i < m.n; i++) { m.re[i] = co("x"); m.im[i] = 0; ((double *)v->getDataPtr())[i] = m.re[i]; } } return v; }
static Vells *makeFlags(M &m) { LoShape s = shapeOf(m); Vells *v = new Vells(s, VellsFlagType(0), false); for (int i = 0; i < m.n; i++) { m.fl[i] = (int)sx_bits(nm("fl"), 32); ((int *)v->getDataPtr())[i] = m.fl[i]; } return v; }
static bool join(const M &a, const M &b, M &u) { u.r = a.r > b.r ? a.r : b.r; u.n = 1; for (int i = 0; i < 3; i++) { u.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; if (a.e[i] > 1 && b.e[i] > 1 && a.e[i] != b.e[i]) return false; u.n *= u.e[i]; } return true; }
static bool fits(const Vells &v, const M &u) { for (int i = 0; i < v.rank(); i++) { if (i >= 3 ? v.extent(i) != 1 : (v.extent(i) != 1 && v.extent(i) != u.e[i])) return false; } return true; }
static int pos(const Vells &v, int i, int j, int k) { int x[3] = {i, j, k}, o = 0; for (int d = 0; d < v.rank(); d++) o = o * v.extent(d) + (v.extent(d) == 1 ? 0 : x[d]); return o; }
static C val(const Vells &v, int o) { return v.isComplex() ? ((const C *)v.getConstDataPtr())[o] : C(((const double *)v.getConstDataPtr())[o], 0); }
static bool eqv(double a, double b) { return sx_dbits(a) == sx_dbits(b) || a == b; }
static bool same(const Vells &v, const M &m) { if (v.isComplex() != m.cx || v.rank() != m.r || v.nelements() != m.n) return false; for (int i = 0; i < m.r; i++) if (v.extent(i) != m.e[i]) return false; bool ok = true; for (int i = 0; i < m.n; i++) { C c = val(v, i); ok &= c.real() == m.re[i] && c.imag() == m.im[i]; } return ok; }
template<class A, class B> static C opr(int op, A a, B b) { return op == 0 ? C(a + b) : op == 1 ? C(a - b) : op == 2 ? C(a * b) : C(a / b); }
static C expect(int op, const M &a, int i, const M &b, int j) { if (a.cx) { C x(a.re[i], a.im[i]); return b.cx ? opr(op, x, C(b.re[j], b.im[j])) : opr(op, x, b.re[j]); } return b.cx ? opr(op, a.re[i], C(b.re[j], b.im[j])) : opr(op, a.re[i], b.re[j]); }
ENTRY vells_arith() {
  const int R = TIERED(2, 3); M a, b, u; a.cx = sx_choose("cxa", 2); b.cx = sx_choose("cxb", 2); int op = sx_choose("op", 4); anyshape(a, R, 2, "ra"); anyshape(b, R, TIERED(3, 2), "rb"); Vells::Ref ra(make(a)); pos_ = op == 3; Vells::Ref rb(make(b)); pos_ = false; Vells &x = ra(), &y = rb(); bool ok = join(a, b, u); int how = sx_choose("how", 3); // out of place, in place, in place on a shared copy
  Vells z; bool thrown = false; try { if (how == 0) { z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; } else { Vells w(x, 0); Vells &t = how == 1 ? x : w; if (op == 0) t += y; else if (op == 1) t -= y; else if (op == 2) t *= y; else t /= y; z = t; } } catch (std::exception &) { thrown = true; }
  CHECK(thrown == !ok, "arrays are combined exactly if their shapes are compatible"); CHECK(same(y, b), "the right operand is unchanged"); if (how != 1 || thrown) CHECK(same(x, a), "the left operand is unchanged"); if (thrown) { sx_reach("refused"); return; }
  CHECK(fits(z, u), "the result has the combined shape"); for (int i = 0; i < u.e[0]; i++) for (int j = 0; j < u.e[1]; j++) for (int k = 0; k < u.e[2]; k++) { C c = val(z, pos(z, i, j, k)), e = expect(op, a, at(a, i, j, k), b, at(b, i, j, k)); CHECK(eqv(c.real(), e.real()) && eqv(c.imag(), e.imag()), "every element is the result for the corresponding elements"); }
  sx_reach("end");
}
// ---- element-wise functions
template<class T> static T pw(T x, int n) { T t = x * x; switch (n) { case 2: return t; case 3: return x * x * x; case 4: return t * t; case 5: return t * t * x; case 6: { T u = x * x * x; return u * u; } case 7: return t * t * t * x; default: { T u = t * t; return u * u; } } }
ENTRY vells_unary() {
  M a; a.cx = sx_choose("cx", 2); int f = sx_choose("fun", 25); anyshape(a, 2, 2, "ra"); Vells::Ref ra(make(a)); const Vells &x = *ra; Vells z; bool thrown = false; bool real2 = f >= 13 && f <= 17; if (a.cx && ((f >= 6 && f <= 12) || f == 19)) return; // complex transcendental functions: see bounds
  try { switch (f) {
    case 0: z = -x; break; case 1: z = VellsMath::sqr(x); break; case 2: z = VellsMath::pow2(x); break; case 3: z = VellsMath::pow3(x); break; case 4: z = VellsMath::conj(x); break; case 5: z = VellsMath::norm(x); break;
    case 6: z = VellsMath::cos(x); break; case 7: z = VellsMath::sin(x); break; case 8: z = VellsMath::exp(x); break; case 9: z = VellsMath::log(x); break; case 10: z = VellsMath::tan(x); break; case 11: z = VellsMath::sqrt(x); break; case 12: z = VellsMath::abs(x); break;
    case 13: z = VellsMath::ceil(x); break; case 14: z = VellsMath::floor(x); break; case 15: z = VellsMath::acos(x); break; case 16: z = VellsMath::asin(x); break; case 17: z = VellsMath::atan(x); break;
    case 18: z = VellsMath::real(x); break; case 19: z = VellsMath::arg(x); break; case 20: z = VellsMath::imag(x); break; case 21: z = VellsMath::pow4(x); break; case 22: z = VellsMath::pow5(x); break; case 23: z = VellsMath::fabs(x); break; case 24: z = VellsMath::pow6(x); break; } } catch (std::exception &) { thrown = true; }
  CHECK(thrown == (a.cx && real2), "functions of real arguments only are refused for complex ones"); CHECK(same(x, a), "the argument is unchanged"); if (thrown) { sx_reach("refused"); return; }
  CHECK(z.rank() == a.r && z.nelements() == a.n, "the result has the shape of the argument"); for (int i = 0; i < a.r; i++) CHECK(z.extent(i) == a.e[i], "the result has the shape of the argument"); bool outc = a.cx && (f <= 4 || f == 21 || f == 22 || f == 24); CHECK(z.isComplex() == outc, "the result is complex exactly for functions that keep complex values");
  for (int i = 0; i < a.n; i++) { double r = a.re[i], m = a.im[i]; C c(r, m), e; C v = val(z, i); int p = f == 3 ? 3 : f == 21 ? 4 : f == 22 ? 5 : f == 24 ? 6 : 2;
    switch (f) { case 0: e = a.cx ? -c : C(-r); break; case 1: case 2: case 3: case 21: case 22: case 24: e = a.cx ? pw(c, p) : C(pw(r, p)); break; case 4: e = C(r, -m); break; case 5: e = a.cx ? C(std::norm(c)) : C(r * r); break;
      case 6: e = cos(r); break; case 7: e = sin(r); break; case 8: e = exp(r); break; case 9: e = log(r); break; case 10: e = tan(r); break; case 11: e = sqrt(r); break; case 12: case 23: e = a.cx ? std::abs(c) : fabs(r); break; case 13: e = ceil(r); break; case 14: e = floor(r); break; case 15: e = acos(r); break; case 16: e = asin(r); break; case 17: e = atan(r); break;
      case 18: e = r; break; case 19: e = r < 0 ? M_PI : 0; break; case 20: e = m; break; }
    CHECK(eqv(v.real(), e.real()) && eqv(v.imag(), e.imag()), "every element is the function of its argument"); }
  sx_reach("end");
}
ENTRY vells_binary() {
  M a, b, u; int f = sx_choose("fun", 7); a.cx = b.cx = false; int cx = sx_choose("cx", 3); if (cx == 1) a.cx = true; if (cx == 2) b.cx = true; if (f == 0 && cx) return; anyshape(a, 2, 2, "ra"); anyshape(b, 2, 2, "rb"); if (f == 3) CR = 64; Vells::Ref ra(make(a)); pos_ = f == 3; Vells::Ref rb(make(b)); pos_ = false; const Vells &x = *ra, &y = *rb; join(a, b, u); Vells z; bool thrown = false;
  try { switch (f) { case 0: z = VellsMath::pow(x, y); break; case 1: z = VellsMath::tocomplex(x, y); break; case 2: z = VellsMath::polar(x, y); break; case 3: z = VellsMath::posdiff(x, y); break; case 4: z = VellsMath::atan2(x, y); break; case 5: z = VellsMath::fmod(x, y); break; case 6: z = VellsMath::remainder(x, y); break; } } catch (std::exception &) { thrown = true; }
  CHECK(thrown == (cx != 0), "functions of real arguments only are refused for complex ones"); if (thrown) { sx_reach("refused"); return; } CHECK(fits(z, u) && z.nelements() == u.n && z.isComplex() == (f == 1 || f == 2), "the result has the combined shape");
  for (int i = 0; i < u.e[0]; i++) for (int j = 0; j < u.e[1]; j++) { double p = a.re[at(a, i, j, 0)], q = b.re[at(b, i, j, 0)]; C v = val(z, pos(z, i, j, 0)), e;
    if (f == 3) { double d = p - q; sx_assume(d > -6 && d < 6); if (d >= -M_PI && d <= M_PI) CHECK(v.real() == d, "a small angle difference is kept"); else { CHECK(v.real() >= -M_PI && v.real() <= M_PI, "an angle difference lies within half a turn"); CHECK(eqv(v.real(), d < 0 ? d + 2 * M_PI : d - 2 * M_PI), "an angle difference is reduced by a full turn"); } continue; }
    switch (f) { case 0: e = pow(p, q); break; case 1: e = C(p, q); break; case 2: { C t = p * exp(C(0, q)); e = t; break; } case 4: e = atan2(p, q); break; case 5: e = fmod(p, q); break; case 6: e = remainder(p, q); break; } CHECK(eqv(v.real(), e.real()) && eqv(v.imag(), e.imag()), "every element is the function of its arguments"); }
  sx_reach("end");
}
// ---- flags
static bool sameFl(const Vells &v, const M &m) { if (!v.isFlags() || v.rank() != m.r || v.nelements() != m.n) return false; for (int i = 0; i < m.r; i++) if (v.extent(i) != m.e[i]) return false; bool ok = true; for (int i = 0; i < m.n; i++) ok &= ((const int *)v.getConstDataPtr())[i] == m.fl[i]; return ok; }
static int flo(int op, int a, int b) { return op == 0 ? a | b : op == 1 ? a & b : a ^ b; }
static int flat(const Vells &v, int i, int j, int k) { return ((const int *)v.getConstDataPtr())[pos(v, i, j, k)]; }
#define EACH(u) for (int i = 0; i < u.e[0]; i++) for (int j = 0; j < u.e[1]; j++) for (int k = 0; k < u.e[2]; k++)
ENTRY vflags_ops() {
  const int R = TIERED(2, 3); M a, b, u; int op = sx_choose("op", 3), how = sx_choose("how", 6); anyshape(a, R, 2, "ra"); Vells::Ref ra(makeFlags(a)); Vells &x = ra(); Vells z;
  if (how >= 4) { int s = (int)sx_bits("s", 32); if (how == 4) z = op == 0 ? x | s : op == 1 ? x & s : x ^ s; else { z = Vells(x, 0); if (op == 0) z |= s; else if (op == 1) z &= s; else z ^= s; } CHECK(z.nelements() == a.n && fits(z, a) && z.isFlags(), "flags combined with a mask keep their shape"); EACH(a) CHECK(flat(z, i, j, k) == flo(op, a.fl[at(a, i, j, k)], s), "every flag is combined with the mask"); CHECK(sameFl(x, a), "the operand is unchanged"); z = ~x; EACH(a) CHECK(flat(z, i, j, k) == ~a.fl[at(a, i, j, k)], "every flag is inverted"); sx_reach("mask"); return; }
  if (how == 3) { b.cx = sx_choose("cx", 2); anyshape(b, 1, 2, "rb"); Vells::Ref rb(make(b)); bool t = false; try { if (sx_choose("dir", 2)) { if (op == 0) z = x | *rb; else if (op == 1) z = x & *rb; else z = x ^ *rb; } else { if (op == 0) rb() |= x; else if (op == 1) rb() &= x; else rb() ^= x; } } catch (std::exception &) { t = true; } CHECK(t, "flag operators apply to flags only"); CHECK(sameFl(x, a) && same(*rb, b), "a refused operation changes nothing"); sx_reach("type"); return; }
  anyshape(b, R, TIERED(3, 2), "rb"); Vells::Ref rb(makeFlags(b)); const Vells &y = *rb; bool ok = join(a, b, u), t = false; try { if (how == 0) z = op == 0 ? x | y : op == 1 ? x & y : x ^ y; else { Vells w(x, 0); Vells &d = how == 1 ? x : w; if (op == 0) d |= y; else if (op == 1) d &= y; else d ^= y; z = d; } } catch (std::exception &) { t = true; }
  CHECK(t == !ok, "flags are combined exactly if their shapes are compatible"); CHECK(sameFl(y, b), "the right operand is unchanged"); if (how != 1 || t) CHECK(sameFl(x, a), "the left operand is unchanged"); if (t) { sx_reach("refused"); return; } CHECK(fits(z, u) && z.isFlags() && z.nelements() == u.n, "the result has the combined shape"); EACH(u) CHECK(flat(z, i, j, k) == flo(op, a.fl[at(a, i, j, k)], b.fl[at(b, i, j, k)]), "every flag is combined with the corresponding one"); sx_reach("end");
}
ENTRY vflags_merge() {
  M a, b, u; bool has = sx_choose("has", 2); anyshape(b, 2, 2, "rb"); Vells::Ref rb(makeFlags(b)); Vells::Ref ra, keep; if (has) { anyshape(a, 2, 2, "ra"); ra <<= makeFlags(a); join(a, b, u); if (sx_choose("shared", 2)) keep = ra; } else { a.r = 1; a.n = 1; for (int i = 0; i < 3; i++) a.e[i] = 1; a.fl[0] = 0; u = b; }
  int fm = sx_choose("full", 2) ? VellsFullFlagMask : (int)sx_bits("fm", 32); Vells::mergeFlags(ra, *rb, fm); CHECK(sameFl(*rb, b), "merged flags are unchanged"); if (keep.valid()) CHECK(sameFl(*keep, a), "other holders of the flags do not see the merge"); if (!has && !fm) { CHECK(!ra.valid(), "an empty mask merges nothing"); return; }
  CHECK(ra.valid() && fits(*ra, u), "merged flags have the combined shape"); if (has && !fm) { CHECK(sameFl(*ra, a), "an empty mask merges nothing"); return; } EACH(u) CHECK(flat(*ra, i, j, k) == (a.fl[at(a, i, j, k)] | (b.fl[at(b, i, j, k)] & fm)), "each flag is the old one plus the masked new one"); sx_reach("end");
  if (sx_choose("after", 2)) { Vells::Ref t = ra; t.dewr() |= 1; M c = b; CHECK(sameFl(*rb, c), "writing merged flags leaves their source alone"); }
}
ENTRY vflags_values() {
  M a, f, u; int how = sx_choose("how", 2); if (how == 0) { a.cx = false; anyshape(a, 2, 2, "ra"); Vells::Ref ra(make(a)); double v = sx_choose("scalar", 2) ? co("v") : a.re[0]; int e = (int)sx_bits("eq", 32), n = (int)sx_bits("ne", 32); Vells out; int r = ra->whereEq(out, v, e, n); int m = 0; CHECK(out.isFlags() && out.nelements() == a.n && fits(out, a), "one flag per value"); for (int i = 0; i < a.n; i++) { bool q = a.re[i] == v; m += q; CHECK(((const int *)out.getConstDataPtr())[i] == (q ? e : n), "flags tell which values match"); } CHECK(r == (m == a.n ? 1 : m == 0 ? -1 : 0), "all, none or some match"); sx_reach("where"); return; }
  a.cx = sx_choose("cx", 2); anyshape(a, 2, 2, "ra"); anyshape(f, 2, 2, "rf"); Vells::Ref ra(make(a)), rf(makeFlags(f)); join(a, f, u); bool ok = u.r == a.r && u.n == a.n, t = false; int fm = (int)sx_bits("fm", 32); Vells::Ref keep = ra; Vells &x = ra.dewr(); try { if (a.cx) x.replaceFlaggedValues(*rf, C(7, 8), fm); else x.replaceFlaggedValues(*rf, 7., fm); } catch (std::exception &) { t = true; }
  CHECK(t == !ok, "flags with more axes than the values are refused"); CHECK(sameFl(*rf, f) && same(*keep, a), "other holders do not see the replacement"); if (t) { CHECK(same(x, a), "a refused replacement changes nothing"); sx_reach("refused"); return; } EACH(a) { int o = at(a, i, j, k); C c = val(x, o), e = f.fl[at(f, i, j, k)] & fm ? C(7, a.cx ? 8 : 0) : C(a.re[o], a.im[o]); CHECK(c.real() == e.real() && c.imag() == e.imag(), "exactly the flagged values are replaced"); } sx_reach("end");
}
// ---- reductions
ENTRY vells_reduce() {
  int f = sx_choose("fun", 6); M a, g, u, s; a.cx = f == 2 || f == 3 || f == 5 ? sx_choose("cx", 2) : 0; bool bad = f < 2 && sx_choose("bad", 2); if (bad) a.cx = true; const int R = 2; anyshape(a, R, 2, "ra"); CR = f == 4 ? 3 : 1024; Vells::Ref ra(make(a)); Vells &x = ra(); bool fl = sx_choose("flags", 2); if (fl) { anyshape(g, R, 2, "rf"); Vells::Ref rg(makeFlags(g)); x.setDataFlags(rg); join(a, g, u); } else { u = a; g = a; g.r = 1; g.n = 1; for (int i = 0; i < 3; i++) g.e[i] = 1; g.fl[0] = 0; }
  int fm = (SX_TIER || !fl) && sx_choose("full", 2) ? VellsFullFlagMask : fl ? (int)sx_bits("fm", 3) : 1; for (int i = 0; i < g.n && fl; i++) sx_assume((g.fl[i] & ~3) == 0);
  s = u; if (f >= 3) { int more = sx_choose("more", 3); if (more == 1) { if (u.e[0] == 1) s.e[0] = 2; else return; } if (more == 2) { if (s.r == 1) s.r = 2; if (u.e[1] == 1) s.e[1] = 2; else return; } } s.n = s.e[0] * s.e[1]; LoShape shp = shapeOf(s); Vells z; bool t = false;
  try { switch (f) { case 0: z = VellsMath::min(x, fm); break; case 1: z = VellsMath::max(x, fm); break; case 2: z = VellsMath::mean(x, fm); break; case 3: z = VellsMath::sum(x, shp, fm); break; case 4: z = VellsMath::product(x, shp, fm); break; case 5: z = VellsMath::nelements(x, shp, fm); break; } } catch (std::exception &) { t = true; }
  CHECK(t == bad, "the extreme of complex values is refused"); if (t) { sx_reach("refused"); return; } CHECK(z.isScalar() && z.isComplex() == (a.cx && f != 5), "a reduction gives one value"); C v = val(z, 0); int n = 0; C sum(0, 0); double pr = 1, mn = 0, mx = 0; bool first = true;
  EACH(s) { int o = at(a, i, j, k); if (g.fl[at(g, i, j, k)] & fm) continue; n++; sum = C(sum.real() + a.re[o], sum.imag() + a.im[o]); pr = pr * a.re[o]; if (first || a.re[o] < mn) mn = a.re[o]; if (first || a.re[o] > mx) mx = a.re[o]; first = false; }
  if (n) sx_reach("some"); else sx_reach("none");
  switch (f) { case 0: if (n) CHECK(v.real() == mn, "the least unflagged value"); break; case 1: if (n) CHECK(v.real() == mx, "the greatest unflagged value"); break; case 2: if (!n) CHECK(v.real() == 0 && v.imag() == 0, "the mean of nothing is zero"); else { C e = a.cx ? sum / C(n, 0) : C(sum.real() / n); CHECK(eqv(v.real(), e.real()) && eqv(v.imag(), e.imag()), "the mean of the unflagged values"); } break; case 3: CHECK(v.real() == sum.real() && v.imag() == sum.imag(), "the sum over all unflagged points of the shape"); break; case 4: CHECK(eqv(v.real(), pr), "the product over all unflagged points of the shape"); break; case 5: CHECK(v.real() == n && v.imag() == 0, "the number of unflagged points of the shape"); break; }
  sx_reach("end");
}
ENTRY vells_minmax() { CR = 1 << 10; // element-wise extremes that ignore flagged operands
  M a, b, u, f[2]; a.cx = b.cx = false; bool mx = sx_choose("max", 2); int fl = sx_choose("flags", 4); anyshape(a, 2, 2, "ra"); anyshape(b, 2, TIERED(1, 2), "rb"); Vells::Ref ra(make(a)), rb(make(b)); join(a, b, u); for (int q = 0; q < 2; q++) if (fl >> q & 1) { anyshape(f[q], TIERED(1, 2), 2, "rf"); Vells::Ref r(makeFlags(f[q])); (q ? rb : ra)().setDataFlags(r); join(u, f[q], u); } else { f[q].r = f[q].n = 1; for (int i = 0; i < 3; i++) f[q].e[i] = 1; f[q].fl[0] = 0; }
  int ma = (int)sx_bits("ma", 32), mb = (int)sx_bits("mb", 32); Vells z = mx ? VellsMath::max(*ra, *rb, ma, mb) : VellsMath::min(*ra, *rb, ma, mb); CHECK(fits(z, u) && z.nelements() == u.n, "the result has the combined shape of values and flags");
  EACH(u) { double p = a.re[at(a, i, j, k)], q = b.re[at(b, i, j, k)], v = val(z, pos(z, i, j, k)).real(); bool x = f[0].fl[at(f[0], i, j, k)] & ma, y = f[1].fl[at(f[1], i, j, k)] & mb; if (x && y) continue; double e = x ? q : y ? p : mx ? (p > q ? p : q) : (p < q ? p : q); CHECK(v == e, "the extreme of the operands that are not flagged"); } sx_reach("end");
}
// ---- copies and transfer
ENTRY vells_copy() {
  M a; a.cx = sx_choose("cx", 2); anyshape(a, 3, 2, "ra"); bool fl = sx_choose("fl", 2); Vells::Ref ra(fl ? makeFlags(a) : make(a)); ObjRef r; int how = sx_choose("how", 5); if (how == 0) { BlockSet s; int n = ra->toBlock(s); CHECK(n == s.size(), "announced number of blocks"); r = DynamicTypeManager::construct(0, s); CHECK(s.size() == 0, "all blocks used up"); } else if (how == 1) r.attach(static_cast<Vells *>(ra->clone(DMI::DEEP, 0)), DMI::ANONWR); else if (how == 2) r <<= new Vells(*ra, 0); else if (how == 3) { Vells *v = new Vells; r <<= v; *v = *ra; } else { Vells::Ref c = ra; c.dewr(); r = c; }
  Vells &y = r.ref_cast<Vells>().dewr(); CHECK(fl ? sameFl(y, a) : same(y, a), "a copy has the values of its original"); int who = sx_choose("who", 2); Vells &w = who ? y : ra.dewr(); if (fl) w |= 1; else { Vells one(1.); w += one; } const Vells &o = who ? *ra : y; CHECK(fl ? sameFl(o, a) : same(o, a), "a copy is independent of its original"); sx_reach("end");
}
