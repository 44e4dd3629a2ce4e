// Numeric arrays: slicing by identifiers, copy on write, references to slices
#include "sx.h"
#include <DMI/NumArray.h>
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/DMI.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static const blitz::Array<int, 1> &c1(const NumArray &x) { return x.getConstArray<int, 1>(); }
struct Ax { int st, n, incr; bool keep; };
static const int NA_ = 99;
// one axis: appends to the id, returns false when the axis is illegal
static bool axis(HIID &h, int dim, Ax &a, bool simple) {
  a = Ax{0, dim, 1, true}; int k = sx_choose(nm("axis"), simple ? 5 : 7);
  int M = dim + 1, s = 0, e = dim - 1, c = 1; AtomicID sx, ex;
  switch (k) {
  case 0: s = sx_choose(nm("at"), M); h.push_back(AtomicID(s)); a = Ax{s, 1, 1, false}; return s < dim;
  case 1: h.push_back(AidWildcard); return true;
  case 2: s = sx_choose(nm("st"), M); e = sx_choose(nm("end"), M); h.push_back(AtomicID(s)); h.push_back(AidRange); h.push_back(AtomicID(e)); break;
  case 3: s = sx_choose(nm("st"), M); h.push_back(AtomicID(s)); h.push_back(AidRange); h.push_back(AidEmpty); break;
  case 4: e = sx_choose(nm("end"), M); h.push_back(AidEmpty); h.push_back(AidRange); h.push_back(AtomicID(e)); break;
  case 5: s = sx_choose(nm("st"), M); e = sx_choose(nm("end"), M); c = sx_choose(nm("incr"), 3); h.push_back(AtomicID(s)); h.push_back(AidRange); h.push_back(AtomicID(e)); h.push_back(AidRange); h.push_back(AtomicID(c)); break;
  case 6: c = sx_choose(nm("incr"), 4); h.push_back(AidEmpty); h.push_back(AidRange); h.push_back(AidEmpty); h.push_back(AidRange); h.push_back(AtomicID(c)); break;
  }
  if (s >= dim || e >= dim || e < s || c < 1) return false;
  a = Ax{s, (e - s) / c + 1, c, true}; return true;
}
static int shp[2], rk; static int val[16];
static void build(NumArray &x, int mx) {
  rk = 1 + sx_choose("rank", 2); LoShape s(LoShape::SETRANK | rk); int n = 1; for (int i = 0; i < rk; i++) { s[i] = shp[i] = 1 + sx_choose(nm("dim"), mx); n *= shp[i]; } if (rk == 1) shp[1] = 1;
  x.init(Tpint, s); int *p = (int *)x.getDataPtr(); for (int i = 0; i < n; i++) p[i] = val[i] = (int)sx_bits(nm("v"), 32);
}
static int nel() { return shp[0] * (rk == 2 ? shp[1] : 1); }
static void same(const NumArray &x, const int *v, const char *w) { const int *p = (const int *)x.getConstDataPtr(); bool ok = true; for (int i = 0; i < nel(); i++) ok &= p[i] == v[i]; sx_assert(ok, w); if (rk == 1) { const blitz::Array<int, 1> &a = x.getConstArray<int, 1>(); CHECK(a.extent(0) == shp[0] && a.data() == p, "the array is a view of the data"); } else { const blitz::Array<int, 2> &a = x.getConstArray<int, 2>(); CHECK(a.extent(0) == shp[0] && a.extent(1) == shp[1] && a.data() == p && &a(shp[0] - 1, shp[1] - 1) == p + nel() - 1, "the array is a view of the data"); } }
// reads one slice and compares with the model; if wr, also writes one element of it
static void slice(NumArray &x, bool wr) {
  HIID id; Ax a[2]; bool ok = true; for (int i = 0; i < rk; i++) ok = axis(id, shp[i], a[i], rk == 2 && TIERED(1, 0)) && ok; if (rk == 1) a[1] = Ax{0, 1, 1, false};
  int nk = a[0].keep + (rk == 2 && a[1].keep); bool thr = false; int n0 = a[0].keep ? a[0].n : a[1].n; const NumArray &cx = x; int j = 0, k = 0;
  try {
    if (nk == 0) { int got = cx[id].as<int>(); CHECK(ok, "a position outside the array is refused"); CHECK(got == val[a[0].st * shp[1] + a[1].st], "element"); }
    else if (nk == 1) { blitz::Array<int, 1> s = cx[id]; CHECK(ok, "a range outside the array is refused"); CHECK(s.extent(0) == n0, "length of a slice"); for (int i = 0; i < n0; i++) { int p = a[0].keep ? (a[0].st + i * a[0].incr) * shp[1] + a[1].st : a[0].st * shp[1] + a[1].st + i * a[1].incr; CHECK(s(i) == val[p], "slice element"); } }
    else { blitz::Array<int, 2> s = cx[id]; CHECK(ok, "a range outside the array is refused"); CHECK(s.extent(0) == a[0].n && s.extent(1) == a[1].n, "shape of a slice"); for (int i = 0; i < a[0].n; i++) for (int l = 0; l < a[1].n; l++) CHECK(s(i, l) == val[(a[0].st + i * a[0].incr) * shp[1] + a[1].st + l * a[1].incr], "slice element"); }
  } catch (std::exception &) { thr = true; }
  CHECK(thr == !ok, "a range is refused exactly when it is not inside the array"); if (thr) { sx_reach("refused"); return; } sx_reach("slice");
  if (!wr) return;
  int w = (int)sx_bits(nm("w"), 32);
  if (nk == 0) { x[id].as_wr<int>() = w; val[a[0].st * shp[1] + a[1].st] = w; }
  else if (nk == 1) { j = n0 - 1; blitz::Array<int, 1> s = x[id].as_wr<blitz::Array<int, 1> >(); s(j) = w; val[a[0].keep ? (a[0].st + j * a[0].incr) * shp[1] + a[1].st : a[0].st * shp[1] + a[1].st + j * a[1].incr] = w; }
  else { j = a[0].n - 1; k = a[1].n - 1; blitz::Array<int, 2> s = x[id].as_wr<blitz::Array<int, 2> >(); s(j, k) = w; val[(a[0].st + j * a[0].incr) * shp[1] + a[1].st + k * a[1].incr] = w; }
}
ENTRY na_slice() { NumArray x; build(x, TIERED(3, 4)); slice(x, true); same(x, val, "a write through a slice changes exactly that element"); sx_reach("end"); }
// fewer axes in the id than in the array: the others are kept whole
ENTRY na_partial() {
  NumArray x; build(x, 3); if (rk == 1) return; int s = sx_choose("at", 4); const NumArray &cx = x; bool thr = false;
  try { blitz::Array<int, 1> v = cx[HIID(AtomicID(s))]; CHECK(s < shp[0], "a position outside the array is refused"); CHECK(v.extent(0) == shp[1], "length"); for (int i = 0; i < shp[1]; i++) CHECK(v(i) == val[s * shp[1] + i], "row"); } catch (std::exception &) { thr = true; }
  CHECK(thr == (s >= shp[0]), "refused exactly when outside"); HIID three; for (int i = 0; i < 3; i++) three.push_back(AtomicID(0)); thr = false; try { (void)(int)cx[three].as<int>(); } catch (std::exception &) { thr = true; } CHECK(thr, "more axes than the array has are refused"); sx_reach("end");
}
// copies share the data until one of them is written
ENTRY na_cow() {
  NumArray x; build(x, 2); int K = TIERED(2, 3); int v2[16]; memcpy(v2, val, sizeof val); int how = sx_choose("how", 4); NumArray *y; NumArray::Ref ry;
  if (how == 0) ry <<= y = new NumArray(x); else if (how == 1) { ry <<= y = new NumArray; *y = x; } else if (how == 2) { ry <<= y = new NumArray(x, 0, 1); } else { BlockSet bs; x.toBlock(bs); ry <<= y = new NumArray; y->fromBlock(bs); CHECK(bs.empty(), "used up"); }
  for (int i = 0; i < K; i++) { bool first = sx_choose(nm("which"), 2); NumArray &t = first ? x : *y; int *v = first ? val : v2; int w = (int)sx_bits(nm("w"), 32);
    switch (sx_choose(nm("op"), 5)) {
    case 0: { int *p = (int *)t.getDataPtr(); p[nel() - 1] = w; v[nel() - 1] = w; break; }
    case 1: if (rk == 1) t.getArray<int, 1>()(0) = w; else t.getArray<int, 2>()(0, 0) = w; v[0] = w; break;
    case 2: if (rk == 1) { HIID h; h.push_back(AidWildcard); blitz::Array<int, 1> s = t[h].as_wr<blitz::Array<int, 1> >(); s(0) = w; } else { HIID h; h.push_back(AtomicID(0)); h.push_back(AidWildcard); blitz::Array<int, 1> s = t[h].as_wr<blitz::Array<int, 1> >(); s(0) = w; } v[0] = w; break;
    case 3: if (first) { NumArray z(*y); memcpy(val, v2, sizeof val); x = z; } else { *y = x; memcpy(v2, val, sizeof val); } break;
    case 4: { const int *p = (const int *)t[HIID()].as_p<int>(); CHECK(p[nel() - 1] == v[nel() - 1], "access as a vector of elements"); break; }
    }
    same(x, val, "first array"); same(*y, v2, "second array");
  }
  sx_reach("end");
}
// references to a slice: a writable one writes through, a const one takes a private copy when written
ENTRY na_ref() {
  NumArray x; build(x, TIERED(2, 3)); bool wr = sx_choose("writable", 2); NumArray ref; int v0[16]; memcpy(v0, val, sizeof val);
  int row = 0, n, step; const NumArray &cx = x; if (rk == 1) { n = shp[0]; int s = sx_choose("start", 2); if (s >= n) return; row = s; n -= s; step = 1; } else { bool col = sx_choose("col", 2); int at = sx_choose("at", 2); if (at >= shp[col ? 1 : 0]) return; row = col ? at : at * shp[1]; n = col ? shp[0] : shp[1]; step = col ? shp[1] : 1; }
  LoShape sh(n), st(step); if (wr) ref.reference((void *)((int *)x.getDataPtr() + row), sh, st, x); else ref.reference((const void *)((const int *)cx.getConstDataPtr() + row), sh, st, cx);
  { const blitz::Array<int, 1> &a = ref.getConstArray<int, 1>(); CHECK(a.extent(0) == n, "length"); for (int i = 0; i < n; i++) CHECK(a(i) == val[row + i * step], "the reference sees the slice"); }
  int op = sx_choose("op", 4), w = (int)sx_bits("w", 32);
  if (op == 0) { blitz::Array<int, 1> &a = ref.getArray<int, 1>(); CHECK(a.extent(0) == n, "length"); for (int i = 0; i < n; i++) CHECK(a(i) == v0[row + i * step], "the reference still sees the slice"); a(n - 1) = w; CHECK(c1(ref)(n - 1) == w, "written"); if (wr) val[row + (n - 1) * step] = w; same(x, val, "a writable reference writes through, a const one does not"); }
  else if (op == 1 || op == 2) { NumArray::Ref rc; if (op == 1) rc <<= new NumArray(ref, 0, sx_choose("deep", 2)); else { NumArray *q = new NumArray; rc <<= q; *q = ref; } const blitz::Array<int, 1> &a = rc->getConstArray<int, 1>(); CHECK(a.extent(0) == n, "length of a copy"); for (int i = 0; i < n; i++) CHECK(a(i) == v0[row + i * step], "a copy of the reference holds the slice"); rc().getArray<int, 1>()(0) = w; CHECK(c1(*rc)(0) == w, "the copy is written"); same(x, v0, "the original is not changed by writing the copy"); }
  else { BlockSet bs; ref.toBlock(bs); NumArray q; q.fromBlock(bs); CHECK(bs.empty() && q.rank() == 1 && q.shape()[0] == n, "shape of an unpacked slice"); const blitz::Array<int, 1> &a = q.getConstArray<int, 1>(); for (int i = 0; i < n; i++) CHECK(a(i) == v0[row + i * step], "an unpacked slice"); }
  sx_reach("end");
}
