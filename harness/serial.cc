// Objects through block sets: round trips, independence of the blocks, malformed blocks
#include "sx.h"
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/DMI.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static HIID one(int i) { return HIID(AtomicID(i)); }
static HIID key(int i) { static const int K[3][2] = {{10, -1}, {11, -1}, {10, 11}}; HIID h; h.push_back(AtomicID(K[i][0])); if (K[i][1] >= 0) h.push_back(AtomicID(K[i][1])); return h; }
// ---- a specification tree: what an object is supposed to hold
enum { NUL, SCA, VECI, VECD, VSTR, VHIID, VREC, ARR, ARR2, ASTR, LIST, REC, EMPTYV, EMPTYA, EMPTYL, EMPTYR, NKIND };
struct Spec { int kind, n; long v[4]; Spec *c[3]; char s[2][3]; };
static Spec pool[64]; static int np;
static Spec *gen(int depth, const int *kinds, int nk, int which = -1);
static Spec *leafint() { Spec *s = &pool[np++]; *s = Spec(); s->kind = SCA; s->n = 1; s->v[0] = (int)sx_bits(nm("v"), 32); return s; }
static Spec *mk(int kind, int sub) {
  Spec *s = &pool[np++]; *s = Spec(); s->kind = kind;
  switch (kind) {
  case SCA: s->n = 1; s->v[0] = (int)sx_bits(nm("v"), 32); break;
  case VECI: s->n = 1 + sub % 2; for (int i = 0; i < s->n; i++) s->v[i] = (int)sx_bits(nm("v"), 32); break;
  case VECD: s->n = 2; for (int i = 0; i < 2; i++) s->v[i] = sx_bits(nm("v"), 64); break;
  case VSTR: case ASTR: s->n = 2; for (int i = 0; i < 2; i++) { int l = sub == 0 ? i : 2 - i; for (int k = 0; k < l; k++) s->s[i][k] = (char)sx_bits(nm("s"), 8); s->v[i] = l; } break;
  case VHIID: s->n = 2; for (int i = 0; i < 2; i++) s->v[i] = (int)sx_bits(nm("v"), 32); break;
  case VREC: s->n = 2; for (int i = 0; i < 2; i++) s->c[i] = i == sub ? 0 : leafint(); break;
  case ARR: s->n = 1 + sub; for (int i = 0; i < s->n; i++) s->v[i] = sx_bits(nm("v"), 64); break;
  case ARR2: s->n = 4; for (int i = 0; i < 4; i++) s->v[i] = (int)sx_bits(nm("v"), 32); break;
  case LIST: s->n = 2; s->c[0] = sub ? leafint() : 0; s->c[1] = leafint(); break;
  case REC: s->n = 3; s->c[0] = leafint(); s->c[1] = sub ? leafint() : 0; s->c[2] = leafint(); break;
  default: s->n = 0;
  }
  return s;
}
static ObjRef build(const Spec *s) {
  if (!s) return ObjRef();
  switch (s->kind) {
  case SCA: { int v = s->v[0]; return ObjRef(new Vec(Tpint, -1, &v)); }
  case VECI: case VHIID: { if (s->kind == VHIID) { HIID d[2] = {one(s->v[0]), one(s->v[1]) | AtomicID((int)s->v[0])}; return ObjRef(new Vec(TpDMIHIID, 2, d)); } int v[2] = {(int)s->v[0], (int)s->v[1]}; return ObjRef(new Vec(Tpint, s->n, v)); }
  case VECD: return ObjRef(new Vec(Tpdouble, 2, s->v));
  case VSTR: { std::string d[2] = {std::string(s->s[0], s->v[0]), std::string(s->s[1], s->v[1])}; return ObjRef(new Vec(Tpstring, 2, d)); }
  case VREC: { Vec *v = new Vec(TpDMIRecord, 2); ObjRef r(v); for (int i = 0; i < 2; i++) if (s->c[i]) { ObjRef o(new Record); o.as<Record>().add(one(12), build(s->c[i])); v->put(i, o); } return r; }
  case ARR: { NumArray *a = new NumArray(Tpdouble, LoShape(s->n)); memcpy(a->getDataPtr(), s->v, 8 * s->n); return ObjRef(a); }
  case ARR2: { NumArray *a = new NumArray(Tpint, LoShape(2, 2)); for (int i = 0; i < 4; i++) ((int *)a->getDataPtr())[i] = s->v[i]; return ObjRef(a); }
  case ASTR: { NumArray *a = new NumArray(Tpstring, LoShape(2)); for (int i = 0; i < 2; i++) ((std::string *)a->getDataPtr())[i].assign(s->s[i], s->v[i]); return ObjRef(a); }
  case LIST: { List *l = new List; ObjRef r(l); for (int i = 0; i < 2; i++) l->addBack(build(s->c[i])); return r; }
  case REC: { Record *p = new Record; ObjRef r(p); for (int i = 0; i < 3; i++) { ObjRef o = build(s->c[i]); if (o.valid()) p->add(key(i), o); else p->add(key(i), ObjRef()); } return r; }
  case EMPTYV: return ObjRef(new Vec); case EMPTYA: return ObjRef(new NumArray); case EMPTYL: return ObjRef(new List); case EMPTYR: return ObjRef(new Record);
  }
  return ObjRef();
}
#define V(c) CHECK(c, "the restored object holds what was stored")
static void verify(const ObjRef &r, const Spec *s) {
  V(r.valid() == (s != 0)); if (!s) return;
  switch (s->kind) {
  case SCA: case VECI: { const Vec &v = r.as<Vec>(); V(v.type() == Tpint && v.mysize() == s->n && v.isScalar() == (s->kind == SCA)); const int *p; int n; p = v[HIID()].as_p<int>(n); V(n == s->n); for (int i = 0; i < n; i++) V(p[i] == (int)s->v[i]); break; }
  case VECD: { const Vec &v = r.as<Vec>(); V(v.type() == Tpdouble && v.mysize() == 2); const double *p; int n; p = v[HIID()].as_p<double>(n); V(n == 2 && !memcmp(p, s->v, 16)); break; }
  case VSTR: { const Vec &v = r.as<Vec>(); V(v.type() == Tpstring && v.mysize() == 2); for (int i = 0; i < 2; i++) { const std::string &x = v[one(i)].as<std::string>(); V((long)x.length() == s->v[i] && !memcmp(x.data(), s->s[i], s->v[i])); } break; }
  case VHIID: { const Vec &v = r.as<Vec>(); V(v.type() == TpDMIHIID && v.mysize() == 2); V(v[one(0)].as<HIID>() == one(s->v[0]) && v[one(1)].as<HIID>() == (one(s->v[1]) | AtomicID((int)s->v[0]))); break; }
  case VREC: { const Vec &v = r.as<Vec>(); V(v.type() == TpDMIRecord && v.mysize() == 2); for (int i = 0; i < 2; i++) { V(v.isValid(i) == (s->c[i] != 0)); if (s->c[i]) { const Record &x = v.as<Record>(i); V(x.size() == 1); verify(x.get(one(12)), s->c[i]); } } break; }
  case ARR: { const NumArray &a = r.as<NumArray>(); V(a.elementType() == Tpdouble && a.rank() == 1 && a.shape()[0] == s->n && !memcmp(a.getConstDataPtr(), s->v, 8 * s->n)); V(((const blitz::Array<double, 1> &)a.getConstArray<double, 1>()).extent(0) == s->n); for (int i = 0; i < s->n; i++) V(sx_dbits(a.getConstArray<double, 1>()(i)) == (unsigned long)s->v[i]); break; }
  case ARR2: { const NumArray &a = r.as<NumArray>(); V(a.elementType() == Tpint && a.rank() == 2 && a.shape()[0] == 2 && a.shape()[1] == 2); const blitz::Array<int, 2> &b = a.getConstArray<int, 2>(); for (int i = 0; i < 4; i++) V(b(i / 2, i % 2) == (int)s->v[i]); break; }
  case ASTR: { const NumArray &a = r.as<NumArray>(); V(a.elementType() == Tpstring && a.rank() == 1 && a.shape()[0] == 2); for (int i = 0; i < 2; i++) { const std::string &x = ((const std::string *)a.getConstDataPtr())[i]; V((long)x.length() == s->v[i] && !memcmp(x.data(), s->s[i], s->v[i])); } break; }
  case LIST: { const List &l = r.as<List>(); V(l.numItems() == 2); for (int i = 0; i < 2; i++) verify(l.get(i), s->c[i]); break; }
  case REC: { const Record &x = r.as<Record>(); V(x.size() == 3); for (int i = 0; i < 3; i++) { V(x.hasField(key(i))); verify(x.get(key(i)), s->c[i]); } break; }
  case EMPTYV: V(!r.as<Vec>().valid()); break; case EMPTYA: V(!r.as<NumArray>().valid()); break; case EMPTYL: V(r.as<List>().numItems() == 0); break; case EMPTYR: V(r.as<Record>().size() == 0); break;
  }
}
// writes through every writable way into the object
static void scribble(ObjRef &r, const Spec *s) {
  switch (s->kind) {
  case SCA: r.as<Vec>()[HIID()] = (int)s->v[0] ^ 3; break;
  case VECI: r.as<Vec>()[one(s->n - 1)] = (int)s->v[0] ^ 3; break;
  case VECD: { double *p; int n; p = r.as<Vec>()[HIID()].as_wp<double>(n); p[1] = 2.5; break; }
  case VSTR: r.as<Vec>()[one(0)].as_wr<std::string>() = "zzzzz"; break;
  case VHIID: r.as<Vec>()[one(1)].as_wr<HIID>() = HIID(AtomicID(77)); break;
  case VREC: r.as<Vec>()[one(s->c[0] ? 0 : 1)][one(12)].replace() = 1234; break;
  case ARR: ((double *)r.as<NumArray>().getDataPtr())[0] = 2.5; break;
  case ARR2: r.as<NumArray>().getArray<int, 2>()(1, 1) = (int)s->v[3] ^ 3; break;
  case ASTR: ((std::string *)r.as<NumArray>().getDataPtr())[1] = "zzzzz"; break;
  case LIST: r.as<List>()[one(1)].replace() = 1234; break;
  case REC: r.as<Record>()[key(0)] = 1234; r.as<Record>()[one(13)] = 3; break;
  }
}
static void roundtrip(Spec *s) {
  BlockSet keep, bs; { ObjRef o = build(s); verify(o, s); int n = o->toBlock(bs); CHECK(n == (int)bs.size(), "the number of blocks written is the number reported"); verify(o, s);
    int way = sx_choose("way", 3); bs.pushCopy(keep); keep.pushCopy(bs);
    if (way == 1) { scribble(o, s); sx_reach("scribble"); } // the stored form does not follow later changes
    if (way == 2) { ObjRef o2 = o.copy(DMI::DEEP, sx_choose("deep", 2) ? 1000 : 0); verify(o2, s); o2.dewr(); verify(o2, s); scribble(o2, s); verify(o, s); sx_reach("clone"); } }
  ObjRef r = DynamicTypeManager::construct(0, bs); CHECK(bs.empty(), "restoring an object uses up its blocks"); verify(r, s);
  ObjRef r2 = DynamicTypeManager::construct(0, keep); // a second copy from the same blocks
  BlockSet bs2; int n2 = r2->toBlock(bs2); CHECK(n2 == (int)bs2.size(), "count"); scribble(r2, s); verify(r, s); ObjRef r3 = DynamicTypeManager::construct(0, bs2); verify(r3, s); // again before anything was looked at
  BlockSet bs4; r->toBlock(bs4); ObjRef r4 = DynamicTypeManager::construct(0, bs4); CHECK(bs4.empty(), "used up"); verify(r4, s); sx_reach("end");
}
ENTRY serial_flat() { static const int K[] = {SCA, VECI, VECD, VSTR, VHIID, ARR, ARR2, EMPTYV, EMPTYA, EMPTYL, EMPTYR}; int k = K[sx_choose("kind", 11)]; int sub = sx_choose("sub", 2); roundtrip(mk(k, sub)); }
static Spec *nested(int depth) {
  static const int C[] = {VREC, LIST, REC}, I[] = {VSTR, ARR, EMPTYV, EMPTYL, EMPTYR, VREC, LIST, REC};
  int k = depth ? C[sx_choose(nm("cont"), 3)] : I[sx_choose(nm("leaf"), TIERED(5, 8))], sub = sx_choose(nm("sub"), 2); Spec *s = mk(k, sub);
  if (depth) { Spec *in = nested(depth - 1); s->c[k == VREC ? 1 - sub : 1] = in; } return s;
}
ENTRY serial_nested() { roundtrip(nested(1 + sx_choose("depth", 2))); }
// ---- damaged blocks: refused, or restored to something that can be used safely
static long sink;
static void walk(const ObjRef &r) {
  if (!r.valid()) return; TypeId t = r->objectType();
  if (t == TpDMIRecord) { const Record &x = r.as<Record>(); for (Record::const_iterator it = x.begin(); it != x.end(); ++it) walk(it.ref()); }
  else if (t == TpDMIList) { const List &l = r.as<List>(); for (int i = 0; i < l.numItems(); i++) walk(l.get(i)); }
  else if (t == TpDMIVec) {
    const Vec &v = r.as<Vec>(); if (!v.valid()) return; CHECK(v.mysize() >= 0, "a restored vector has a size");
    for (int i = 0; i < v.mysize(); i++) { if (TypeInfo::isNumeric(v.type())) { ldouble d = 0; if (v.type() != Tpfcomplex && v.type() != Tpdcomplex) sink += (v.type() == Tpint ? (int)(const int &)v[one(i)].as<int>() : 0); else sink++; } else if (v.type() == Tpstring) { const std::string &s = v[one(i)].as<std::string>(); for (unsigned k = 0; k < s.length(); k++) sink += s[k]; } else if (v.type() == TpDMIHIID) sink += v[one(i)].as<HIID>().size(); else if (TypeInfo::isDynamic(v.type())) walk(v.getObj(i)); }
  } else if (t == TpDMINumArray) { const NumArray &a = r.as<NumArray>(); if (!a.valid()) return; const char *p = (const char *)a.getConstDataPtr(); int sz = TypeInfo::find(a.elementType()).size, n = a.size(); CHECK(n >= 0 && n == (int)a.shape().product(), "size of a restored array"); for (int i = 0; i < n * sz; i++) sink += p[i]; }
}
static void damaged(const Spec *s, bool deep) {
  BlockSet src, bs; { ObjRef o = build(s); o->toBlock(src); }
  int how = sx_choose("how", 3), nb = src.size(), which = deep ? sx_choose("blk", nb) : 0, i = 0;
  for (BlockSet::const_iterator it = src.begin(); it != src.end(); ++it, i++) {
    const SmartBlock &b = **it; int sz = b.size();
    if (i != which) { bs.push(BlockRef((SmartBlock *)b.clone())); continue; }
    if (how == 2) { if (sx_choose("dup", 2)) { bs.push(BlockRef((SmartBlock *)b.clone())); bs.push(BlockRef((SmartBlock *)b.clone())); } continue; } // lost or doubled
    int n = sz; if (how == 1) { n = sx_choose("cut", sz + 4); } SmartBlock *nb = new SmartBlock(n, DMI::ZERO); memcpy(nb->data(), b.data(), n < sz ? n : sz);
    if (how == 0) { int w = sx_choose("word", sz / 4); const int *hw = (const int *)b.data(); int tid = hw[0]; bool vec = tid == TpDMIVec.id() || tid == TpDMINumArray.id(); unsigned x;
      if (w == 0 || (w == 2 && vec)) { static const int T[] = {0, 1, -1, TpDMIVec_int, TpDMIRecord_int, TpDMIList_int, TpDMINumArray_int, Tpint_int, Tpdouble_int, Tpstring_int, TpDMIHIID_int, TpDMIObjRef_int, Tpbool_int, Tpchar_int, Tpldouble_int, Tpdcomplex_int}; x = T[sx_choose("tid", 16)]; }
      else if (tid == TpDMIRecord.id() && w >= 3 + 2 * hw[2]) { static const int A[] = {0, -1, 10, 11, 1 << 30, -100000}; x = A[sx_choose("aid", 6)]; } // keep identifiers concrete (hash lookups)
      else x = (unsigned)sx_bits("x", 32);
      memcpy((char *)nb->data() + 4 * w, &x, 4); }
    bs.push(BlockRef(nb));
  }
  try { ObjRef r = DynamicTypeManager::construct(0, bs); sx_reach("accepted"); walk(r); BlockSet out; if (r.valid()) r->toBlock(out); sx_reach("walked"); if (r.valid()) { ObjRef c = r.copy(DMI::DEEP, 1000); c.dewr(); walk(c); } } catch (std::exception &) { sx_reach("refused"); }
  sx_reach("end");
}
ENTRY serial_damaged() { static const int K[] = {SCA, VECI, VECD, VSTR, VHIID, ARR, ARR2, VREC, LIST, REC, EMPTYV, EMPTYA, EMPTYL, EMPTYR}; int k = K[sx_choose("kind", 14)], sub = sx_choose("sub", 2); damaged(mk(k, sub), true); }
ENTRY serial_damaged_nested() { damaged(nested(1), true); }
