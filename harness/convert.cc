// Numeric access to containers: every numeric type read and written as every other
#include "sx.h"
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/DMI.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static HIID F() { return HIID(AtomicID(10)); }
// arbitrary value of each type; floating point values are small multiples of 1/4 so that every conversion is defined
static double fl(int bits) { return (double)sx_range(nm("q"), -(1 << bits), 1 << bits) / 4; }
template <class T> struct Any { static T get() { return (T)sx_bits(nm("x"), sizeof(T) * 8); } };
template <> struct Any<bool> { static bool get() { return sx_bits(nm("x"), 1) != 0; } };
template <> struct Any<float> { static float get() { return (float)fl(8); } };
template <> struct Any<double> { static double get() { return fl(8); } };
template <> struct Any<fcomplex> { static fcomplex get() { float a = (float)fl(8), b = (float)fl(4); return fcomplex(a, b); } };
template <> struct Any<dcomplex> { static dcomplex get() { double a = fl(8), b = fl(4); return dcomplex(a, b); } };
// the language's own conversion; complex numbers convert to real ones by their real part
template <class A> struct Re { typedef A R; static A re(A x) { return x; } }; 
template <> struct Re<fcomplex> { typedef float R; static float re(fcomplex x) { return x.real(); } };
template <> struct Re<dcomplex> { typedef double R; static double re(dcomplex x) { return x.real(); } };
template <class A, class B> struct Cv { static B cv(const A &x) { return (B)Re<A>::re(x); } };
template <class A> struct Cv<A, fcomplex> { static fcomplex cv(const A &x) { return fcomplex((float)x, 0); } };
template <class A> struct Cv<A, dcomplex> { static dcomplex cv(const A &x) { return dcomplex((double)x, 0); } };
template <class A, class B> struct Cc { static B cv(const A &x) { return B(x.real(), x.imag()); } };
template <> struct Cv<fcomplex, fcomplex> : Cc<fcomplex, fcomplex> {}; template <> struct Cv<dcomplex, dcomplex> : Cc<dcomplex, dcomplex> {}; template <> struct Cv<fcomplex, dcomplex> : Cc<fcomplex, dcomplex> {}; template <> struct Cv<dcomplex, fcomplex> : Cc<dcomplex, fcomplex> {};
template <class T> static bool eq(const T &a, const T &b) { return a == b; }
template <class A> static bool arr() { static const TypeId T[] = {Tpbool, Tpint, Tpfloat, Tpdouble, Tpfcomplex, Tpdcomplex}; for (int i = 0; i < 6; i++) if (T[i] == typeIdOf(A)) return true; return false; }
template <class A> static Record::Ref holder(const A &x, int how) {
  Record::Ref r(new Record); TypeId t = typeIdOf(A);
  if (how == 0) r()[F()] = x; else if (how == 1) { ObjRef o(new Vec(t, -1, &x)); r().add(F(), o); } else if (how == 2) { NumArray *n = new NumArray(t, LoShape(1)); ObjRef o(n); *(A *)n->getDataPtr() = x; r().add(F(), o); } else { Record *in = new Record; ObjRef o(in); (*in)[F()] = x; r().add(F(), o); }
  return r;
}
static HIID path(int how) { HIID h = F(); if (how == 3) { h.push_back(AidSlash); h.push_back(AtomicID(10)); } return h; }
template <class A, class B> static void convPair(int how) {
  if (how == 2 && !arr<A>()) return; A x = Any<A>::get(); Record::Ref r = holder<A>(x, how); const Record &cr = *r; HIID p = path(how);
  B got = cr[p].as<B>(); CHECK(eq(got, Cv<A, B>::cv(x)), "a value read as another type is the converted value");
  B viaget = B(); CHECK(cr[p].get(viaget) && eq(viaget, got), "get() delivers the same value"); B dflt = cr[p].as<B>(B()); CHECK(eq(dflt, got), "a default is ignored when the field exists");
  B y = Any<B>::get(); Record::Ref cp(r); r()[p] = y; A now = (*r)[p].as<A>(); CHECK(eq(now, Cv<B, A>::cv(y)), "a value assigned to a field of another type is converted to the field's type"); CHECK((*r)[p].type() == (how == 2 ? TypeId(TpArray(typeIdOf(A), 1)) : TypeId(typeIdOf(A))), "assignment keeps the type of the field");
  CHECK(eq((*cp)[p].as<A>(), x), "the copy is not affected by the assignment"); HIID miss = HIID(AtomicID(11)); B z = y; CHECK(!(*r)[miss].get(z) && eq(z, y), "get() of a missing field says so"); CHECK(eq((*r)[miss].as<B>(y), y), "a default is used for a missing field");
  bool thr = false; try { (void)(*r)[miss].as<B>(); } catch (std::exception &) { thr = true; } CHECK(thr, "a missing field is refused");
}
template <class A> static void row(int b, int how) {
  switch (b) { case 0: convPair<A, bool>(how); break; case 1: convPair<A, uchar>(how); break; case 2: convPair<A, short>(how); break; case 3: convPair<A, int>(how); break; case 4: convPair<A, longlong>(how); break; case 5: convPair<A, float>(how); break; case 6: convPair<A, double>(how); break; case 7: convPair<A, fcomplex>(how); break; case 8: convPair<A, dcomplex>(how); break; case 9: convPair<A, uint>(how); break; case 10: convPair<A, long>(how); break; case 11: convPair<A, ulonglong>(how); break; }
}
ENTRY convert_numeric() {
  int a = sx_choose("from", 9), b = sx_choose("to", TIERED(9, 12)), how = sx_choose("how", 4);
  switch (a) { case 0: row<bool>(b, how); break; case 1: row<uchar>(b, how); break; case 2: row<short>(b, how); break; case 3: row<int>(b, how); break; case 4: row<longlong>(b, how); break; case 5: row<float>(b, how); break; case 6: row<double>(b, how); break; case 7: row<fcomplex>(b, how); break; case 8: row<dcomplex>(b, how); break; }
  sx_reach("end");
}
// whole vectors, and conversions that must be refused
ENTRY convert_refused() {
  Record::Ref r(new Record); std::string s("ab"); r()[F()] = s; HIID m(AtomicID(12)); std::vector<int> v; int n = 1 + sx_choose("n", 3); for (int i = 0; i < n; i++) v.push_back((int)sx_bits(nm("e"), 32)); r()[m] = v;
  std::vector<int> w = (*r)[m].as_vector<int>(); CHECK(w == v, "a vector comes back as it was assigned"); CHECK((*r)[m].size() == n, "number of elements");
  int sz = 0; const int *p = (*r)[m].as_p<int>(sz); bool ok = sz == n; for (int i = 0; i < n && ok; i++) ok = p[i] == v[i]; CHECK(ok, "pointer access sees all elements");
  bool t1 = false, t2 = false, t3 = false, t4 = false; try { (void)(*r)[F()].as<int>(); } catch (std::exception &) { t1 = true; } try { (void)(*r)[F()].as<Record>(); } catch (std::exception &) { t2 = true; } try { (void)(*r)[m].as<std::string>(); } catch (std::exception &) { t3 = true; } try { (void)(*r)[m].as_p<double>(); } catch (std::exception &) { t4 = true; }
  CHECK(t1 && t2 && t3 && t4, "impossible conversions are refused"); if (n == 1) CHECK((*r)[m].as<int>() == v[0], "a vector of one element reads as a scalar");
  std::vector<int> u; int k = 1 + sx_choose("k", 3); for (int i = 0; i < k; i++) u.push_back((int)sx_bits(nm("f"), 32)); bool t6 = false; try { r()[m] = u; } catch (std::exception &) { t6 = true; } CHECK(t6 == (k != n), "assigning a vector of another length is refused"); w = (*r)[m].as_vector<int>(); CHECK(w == (t6 ? v : u), "contents after the assignment"); r()[m].replace() = u; w = (*r)[m].as_vector<int>(); CHECK(w == u, "replaced");
  r()[m].replace() = s; CHECK((*r)[m].as<std::string>() == s, "replaced by another type"); sx_reach("end");
}
