// Vec and List element semantics; packing of arrays, sequences and maps
#include "sx.h"
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/Packer.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/DMI.h>
#include <cstdio>
#include <cstring>
#include <exception>
#include <map>
#include <vector>
using namespace DMI;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static HIID one(int i) { return HIID(AtomicID(i)); }
static ObjRef mkint(int v) { return ObjRef(new Vec(Tpint, -1, &v)); }
static int ival(const ObjRef &r) { return (int)(const int &)(r.as<Vec>()[HIID()].as<int>()); }
static int sym(const char *n) { return (int)sx_bits(nm(n), 32); }
// ---- Vec: kinds 0 int (binary), 1 string (special), 2 Record (objects)
struct MV { bool val, sca; int n, v[8]; };
static int kd; static bool valid_[2][8];
static std::string str(int v) { char c[4]; memcpy(c, &v, 4); return std::string(c, 4); }
static ObjRef rec(int v) { Record *r = new Record; ObjRef o(r); r->add(one(12), mkint(v)); return o; }
static TypeId vt() { return kd == 0 ? Tpint : kd == 1 ? Tpstring : TpDMIRecord; }
static void vset(Vec &v, int i, int x) { if (kd == 0) v[one(i)] = x; else if (kd == 1) v[one(i)] = str(x); else { ObjRef o = rec(x); v.put(i, o); } }
static void vcheck(const Vec &v, const MV &m, const bool *set) {
  CHECK(v.valid() == m.val, "initialised"); if (!m.val) { CHECK(v.mysize() == 0, "an empty vector has no elements"); return; }
  CHECK(v.mysize() == m.n && v.size(vt()) == m.n && v.isScalar() == m.sca && v.type() == vt(), "size, type and scalar flag");
  for (int i = 0; i < m.n; i++) if (set[i]) { if (kd == 0) CHECK((int)(const int &)v[one(i)].as<int>() == m.v[i], "element"); else if (kd == 1) CHECK(v[one(i)].as<std::string>() == (m.v[i] == 0 ? std::string("\0\0\0\0", 4) : str(m.v[i])), "string element"); else { CHECK(v.isValid(i), "object present"); CHECK((int)(const int &)v.as<Record>(i)[one(12)].as<int>() == m.v[i], "object element"); } }
    else if (kd == 2) { if (v.isValid(i)) CHECK(v.as<Record>(i).size(0) == 0, "an element that was never set is empty"); } else if (kd == 0) CHECK((int)(const int &)v[one(i)].as<int>() == 0, "an element that was never set is zero"); else CHECK(v[one(i)].as<std::string>().empty(), "an element that was never set is empty");
}
ENTRY vec_history() {
  kd = sx_choose("kind", 3); int K = TIERED(3, 4); MV m[2]; bool st[2][8]; memset(m, 0, sizeof m); memset(st, 0, sizeof st); Vec::Ref r[2]; r[0] <<= new Vec; r[1] <<= new Vec;
  int c = sx_choose("init", 3); if (c) { int n = c == 1 ? -1 : 2; r[0]().init(vt(), n); m[0].val = true; m[0].sca = c == 1; m[0].n = c == 1 ? 1 : 2; }
  for (int k = 0; k < K; k++) {
    int op = sx_choose(nm("op"), 8); MV &x = m[0]; bool *s = st[0]; bool thr = false, want = false; Vec &v = r[0]();
    try { switch (op) {
    case 0: { int i = sx_choose(nm("i"), 3); int y = sym("y"); want = i > x.n || (!x.val && kd != 2); // one past the end extends; only put() initialises
        MV o = x; if (!want) { if (!x.val) { x.val = true; x.n = 1; x.sca = kd != 2; } else if (i == x.n) { x.n++; x.sca = false; } x.v[i] = y; s[i] = true; } vset(v, i, y); break; }
    case 1: { int n = sx_choose(nm("n"), 4); want = n == 0 || !x.val; if (!want) { for (int i = x.n; i < n; i++) s[i] = false; x.n = n; if (n > 1) x.sca = false; } v.resize(n); break; }
    case 2: { int i = sx_choose(nm("i"), 2); want = !x.val || i != x.n - 1 || x.n == 1; if (!want) { x.n--; } int n = 0; v[one(i)].remove(); break; }
    case 3: v.clear(); x.val = false; x.n = 0; memset(s, 0, 8); break;
    case 4: if (!x.val) break; r[1] <<= new Vec(*r[0], 0, sx_choose(nm("deep"), 2)); m[1] = x; memcpy(st[1], s, 8); break; // a copy
    case 5: if (!x.val || !m[1].val) break; v = *r[1]; x = m[1]; memcpy(s, st[1], 8); sx_reach("assign"); break;
    case 6: { BlockSet bs; v.toBlock(bs); Vec *nv2 = new Vec; Vec::Ref q(nv2); nv2->fromBlock(bs); CHECK(bs.empty(), "used up"); r[0] = q; sx_reach("serial"); break; }
    case 7: { want = true; int i = 2 + x.n; if (kd == 2) v.getObj(i); else (void)(const int &)v[one(i)].as<int>(); break; } // out of range
    } } catch (std::exception &) { thr = true; }
    CHECK(thr == want, "an access is refused exactly when it is out of range or impossible"); if (thr) { sx_reach("refused"); }
    vcheck(*r[0], m[0], st[0]); vcheck(*r[1], m[1], st[1]); if (thr) break;
  }
  sx_reach("end");
}
// ---- List against a simple sequence
static int lm[16], ln;
static void lcheck(const List &l) {
  CHECK(l.numItems() == ln && l.size() == ln, "length"); for (int i = 0; i < ln; i++) CHECK(ival(l.get(i)) == lm[i], "items are in order"); for (int i = 1; i <= ln; i++) CHECK(ival(l.get(-i)) == lm[ln - i], "negative positions count from the end");
  for (int j = 0; j < 2; j++) { bool thr = false; try { l.get(j ? ln : -ln - 1); } catch (std::exception &) { thr = true; } CHECK(thr, "a position outside the list is refused"); }
}
static void lins(int at, int v) { for (int i = ln; i > at; i--) lm[i] = lm[i - 1]; lm[at] = v; ln++; }
static void ldel(int at) { for (int i = at; i + 1 < ln; i++) lm[i] = lm[i + 1]; ln--; }
ENTRY list_history() {
  List::Ref rl(new List); ln = 0; int c = sx_choose("init", 3); for (int i = 0; i < c; i++) { int v = sym("v"); rl().addBack(mkint(v)); lm[ln++] = v; } lcheck(*rl); int K = TIERED(2, 3);
  for (int k = 0; k < K; k++) {
    int op = sx_choose(nm("op"), 10), v = sym("v"); List &l = rl(); bool thr = false, want = false;
    try { switch (op) {
    case 0: l.addBack(mkint(v)); lm[ln++] = v; break;
    case 1: l.addFront(mkint(v)); lins(0, v); break;
    case 2: { int p = sx_choose(nm("p"), 8) - 4, at = p >= 0 ? p : ln + 1 + p; want = at < 0 || at > ln; if (!want) lins(at, v); ObjRef o = mkint(v); l.insert(p, o); break; } // before position p; -1 is the end
    case 3: { int p = sx_choose(nm("p"), 7) - 3, at = p >= 0 ? p : ln + p; want = at < 0 || at >= ln; if (!want) lm[at] = v; ObjRef o = mkint(v); l.replace(p, o); break; }
    case 4: { int p = sx_choose(nm("p"), 7) - 3, at = p >= 0 ? p : ln + p; want = at < 0 || at >= ln; int old = want ? 0 : lm[at]; if (!want) ldel(at); ObjRef o = l.remove(p); CHECK(o.valid() && ival(o) == old, "remove returns the item"); break; }
    case 5: { List o; int n = sx_choose(nm("n"), 3); for (int i = 0; i < n; i++) { int w = sym("w"); o.addBack(mkint(w)); lm[ln++] = w; } l.append(o); CHECK(o.numItems() == n, "the appended list is unchanged"); break; }
    case 6: { if (!ln) break; int p = sx_choose(nm("p"), 2) % ln; l[one(p)].as_wr<int>() = v; lm[p] = v; break; }
    case 7: { want = false; l[one(ln)] = v; lm[ln] = v; ln++; break; } // assigning one past the end appends
    case 8: { BlockSet bs; l.toBlock(bs); List *q = new List; List::Ref rq(q); q->fromBlock(bs); CHECK(bs.empty(), "used up"); rl = rq; break; }
    case 9: { if (!ln) break; List::Ref cp(new List(l, 0, sx_choose(nm("deep"), 2))); lcheck(*cp); int o = lm[0]; cp()[one(0)].as_wr<int>() = v; CHECK(ival(cp->get(0)) == v, "the copy is written"); lcheck(l); List copy2; copy2 = l; l[one(0)].as_wr<int>() = v; CHECK(ival(copy2.get(0)) == o, "an assigned copy is independent"); lm[0] = v; sx_reach("copy"); break; }
    } } catch (std::exception &) { thr = true; }
    CHECK(thr == want, "a position is refused exactly when it is outside the list"); if (thr) sx_reach("refused"); lcheck(*rl);
  }
  sx_reach("end");
}
// ---- packing
template <class P, class T> static bool rt(const T &x, T &y, bool &threw) {
  size_t n = P::packSize(x); char *b = new char[n]; int d = sx_choose(nm("slack"), 3); size_t left = n + (d == 1 ? 3 : 0); char *big = new char[n + 3]; threw = false; bool ok = true;
  if (d == 2 && n) { size_t l2 = n - 1; char *sm = new char[n - 1]; try { P::pack(x, sm, l2); } catch (std::exception &) { threw = true; } CHECK(threw, "a buffer that is too small is refused"); delete[] sm; }
  size_t w = P::pack(x, big, left); CHECK(w == n && left == (size_t)(d == 1 ? 3 : 0), "packing uses exactly the announced number of bytes"); memcpy(b, big, n); P::unpack(y, b, n); delete[] b; delete[] big; return ok;
}
template <class P, class T> static void dam(const T &x) {
  size_t n = P::packSize(x); char *b = new char[n]; size_t left = n; P::pack(x, b, left); int how = sx_choose(nm("how"), 2); size_t m = n;
  if (how == 0) { int w = sx_choose(nm("word"), n / 8); unsigned long v = sx_bits(nm("x"), 64); memcpy(b + 8 * w, &v, 8); } else m = sx_choose(nm("cut"), n);
  char *q = new char[m]; memcpy(q, b, m); T y; try { P::unpack(y, q, m); sx_reach("unpacked"); } catch (std::exception &) { sx_reach("refused"); } delete[] b; delete[] q;
}
template <class T> struct Arr { typedef DMI::ArrayPacker<T> A; T v[3]; int n; };
template <class T> struct AP { static size_t packSize(const Arr<T> &a) { return Arr<T>::A::packSize(a.v, a.n); } static size_t pack(const Arr<T> &a, void *b, size_t &l) { return Arr<T>::A::pack(a.v, a.n, b, l); } static void unpack(Arr<T> &a, const void *b, size_t n) { int k; T *p = Arr<T>::A::allocate(b, n, k); a.n = k; for (int i = 0; i < k && i < 3; i++) a.v[i] = p[i]; delete[] p; } };
static std::string sstr() { int l = sx_choose(nm("len"), 3); std::string s; for (int i = 0; i < l; i++) s += (char)sx_bits(nm("ch"), 8); return s; }
template <class F> static void allkinds(F f) {
  int k = sx_choose("kind", 7), n = sx_choose("n", TIERED(3, 4));
  if (k == 0) { std::vector<int> x; for (int i = 0; i < n; i++) x.push_back(sym("e")); f.template go<Packer<std::vector<int> > >(x); }
  else if (k == 1) { std::vector<std::string> x; for (int i = 0; i < n; i++) x.push_back(sstr()); f.template go<Packer<std::vector<std::string> > >(x); }
  else if (k == 2) { std::map<int, double> x; for (int i = 0; i < n; i++) x[i * 3] = sx_double(nm("d")); f.template go<DMI::MapPacker<std::map<int, double>, Packer<int>, Packer<double> > >(x); }
  else if (k == 3) { std::map<int, std::string> x; for (int i = 0; i < n; i++) x[i * 3] = sstr(); f.template go<DMI::MapPacker<std::map<int, std::string>, Packer<int>, Packer<std::string> > >(x); }
  else if (k == 4) { Arr<std::string> x; x.n = n > 3 ? 3 : n; for (int i = 0; i < x.n; i++) x.v[i] = sstr(); f.template go<AP<std::string> >(x); }
  else if (k == 5) { Arr<int> x; x.n = n > 3 ? 3 : n; for (int i = 0; i < x.n; i++) x.v[i] = sym("e"); f.template go<AP<int> >(x); }
  else { std::vector<HIID> x; for (int i = 0; i < n; i++) { HIID h; for (int j = 0; j < i + sx_choose(nm("hl"), 2); j++) h.push_back(AtomicID(sym("e"))); x.push_back(h); } f.template go<Packer<std::vector<HIID> > >(x); }
}
template <class T> static bool same(const T &a, const T &b) { return a == b; }
template <class T> static bool same(const Arr<T> &a, const Arr<T> &b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (!(a.v[i] == b.v[i])) return false; return true; }
static bool same(const std::map<int, double> &a, const std::map<int, double> &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || sx_dbits(i->second) != sx_dbits(j->second)) return false; return true; }
struct DoRt { template <class P, class T> void go(const T &x) { T y; bool t; rt<P>(x, y, t); CHECK(same(x, y), "what is unpacked is what was packed"); } };
struct DoDam { template <class P, class T> void go(const T &x) { dam<P>(x); } };
ENTRY pack_roundtrip() { allkinds(DoRt()); sx_reach("end"); }
ENTRY pack_damaged() { allkinds(DoDam()); sx_reach("end"); }
