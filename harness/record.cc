// Record field semantics, round trips through block sets, malformed blocks, Vec and List elements
#include "sx.h"
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/DMI.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static ObjRef mkint(int v) { return ObjRef(new Vec(Tpint, -1, &v)); }
static HIID key(int i) { static const int K[3][2] = {{10, -1}, {11, -1}, {10, 11}}; HIID h; h.push_back(AtomicID(K[i][0])); if (K[i][1] >= 0) h.push_back(AtomicID(K[i][1])); return h; }
static int ival(const ObjRef &r) { return *(const int *)&(const int &)(r.as<Vec>()[HIID()].as<int>()); }
// ---- Record histories against a simple map
struct MF { bool has, prot, null; int v; };
static MF m[2][3];
static void checkRec(const Record &r, const MF *f) {
  int n = 0; for (int i = 0; i < 3; i++) n += f[i].has; CHECK(r.size() == n && r.size(TpDMIObjRef) == n, "size is the number of fields");
  int seen = 0; for (Record::const_iterator it = r.begin(); it != r.end(); ++it) { int k = -1; for (int i = 0; i < 3; i++) if (it.id() == key(i)) k = i; CHECK(k >= 0 && f[k].has && !(seen & (1 << k)), "iteration delivers every field once"); seen |= 1 << k; CHECK(it.isProtected() == f[k].prot, "the protection of a field is what it was set to"); }
  CHECK(__builtin_popcount(seen) == n, "iteration delivers every field");
  for (int i = 0; i < 3; i++) { CHECK(r.hasField(key(i)) == f[i].has, "hasField"); ObjRef o = r.get(key(i), true); CHECK(o.valid() == (f[i].has && !f[i].null), "get of a present field"); if (o.valid()) CHECK(ival(o) == f[i].v, "a field holds the object put into it"); }
}
static int recOp(Record &r, MF *f, int op, Record &r2, MF *f2) {
  int k = TIERED(0, 0) + 2 * sx_choose(nm("k"), 2); MF &x = f[k]; HIID id = key(k); bool thr = false, want = false; int v;
  try {
    switch (op) {
    case 0: case 1: case 2: { v = (int)sx_bits(nm("v"), 32); int pf = sx_choose(nm("pf"), 2) ? Record::PROTECT : 0, rf = op == 0 && sx_choose(nm("rf"), 2) ? DMI::REPLACE : 0; ObjRef o = mkint(v); bool ok = op == 2 ? !(x.has && x.prot) : !x.has || (op == 0 && rf && !x.prot); want = !ok;
      if (op == 0) r.add(id, o, pf | rf); else if (op == 1) r.insert(id, o, pf | DMI::REPLACE); else r.replace(id, o, pf);
      if (ok) { x = MF{true, pf != 0, false, v}; } break; }
    case 3: { bool ign = sx_choose(nm("ign"), 2); want = x.has ? x.prot : !ign; MF old = x; if (!want) x.has = x.prot = false; ObjRef o = r.removeField(id, ign); CHECK(o.valid() == (old.has && !old.null), "removeField returns the object"); if (o.valid()) CHECK(ival(o) == old.v, "removeField returns the object of that field"); break; }
    case 4: { want = x.has && x.prot; bool had = x.has; if (!want) x.has = x.prot = false; bool nul = x.null; bool n = r[id].remove().valid(); CHECK(n == (had && !nul), "remove returns the object, reports whether a field was removed"); break; }
    case 5: { bool p = sx_choose(nm("p"), 2); want = !x.has; if (x.has) x.prot = p; r.protectField(id, p); break; }
    case 6: { bool ow = sx_choose(nm("ow"), 2); for (int i = 0; i < 3; i++) if (f2[i].has && f[i].has && f[i].prot && ow) want = true; if (want) return -1; for (int i = 0; i < 3; i++) if (f2[i].has && (!f[i].has || ow)) f[i] = f2[i]; r.merge(r2, ow); break; }
    case 7: { v = (int)sx_bits(nm("v"), 32); want = x.has && x.prot; if (!want) { x.has = true; x.v = v; } r[id] = v; break; } // hook assignment
    case 8: { v = (int)sx_bits(nm("v"), 32); want = !x.has || x.prot; if (!want) x.v = v; r[id].as_wr<int>() = v; break; } // write access to the contents
    default: r = r2; memcpy(f, f2, sizeof(MF) * 3);
    }
  } catch (std::exception &) { thr = true; }
  CHECK(thr == want, "an operation is refused exactly when the field is missing, present or protected as documented"); if (thr) sx_reach("refused");
  return thr;
}
ENTRY record_history() {
  Record::Ref ra(new Record), rb(new Record); Record &a = ra(), &b = rb(); int K = TIERED(2, 3);
  for (int i = 0; i < 3; i++) m[0][i] = m[1][i] = MF{false, false, false, 0};
  static const int ini[4] = {0, 1, 6, 5}; int c = ini[sx_choose("init", 4)]; for (int i = 0; i < 2; i++) if (c & (1 << i)) { int v = (int)sx_bits(nm("v"), 32); bool p = c & 4; a.add(key(i), mkint(v), p ? Record::PROTECT : 0); m[0][i] = MF{true, p, false, v}; }
  for (int i = 1; i < 3; i++) { int v = (int)sx_bits(nm("v"), 32); b.add(key(i), mkint(v), i == 2 ? Record::PROTECT : 0); m[1][i] = MF{true, i == 2, false, v}; }
  for (int k = 0; k < K; k++) { int op = sx_choose(nm("op"), 10); if (recOp(a, m[0], op, b, m[1]) < 0) { sx_reach("end"); return; } checkRec(a, m[0]); checkRec(b, m[1]); }
  // a copy is independent of its original
  int w = sx_choose("w", 3); Record::Ref rc(new Record(a, 0, w == 2 ? 1 : 0)); MF *f = m[0]; int k = f[0].has && !f[0].prot ? 0 : f[1].has && !f[1].prot ? 1 : 2; if (f[k].has && !f[k].prot) { Record &wr = w ? rc() : a; wr[key(k)].as_wr<int>() = f[k].v ^ 5; checkRec(w ? a : *rc, f); f[k].v ^= 5; checkRec(w ? *rc : a, f); sx_reach("copy"); }
  sx_reach("end");
}

// ---- write access along a path of nested containers: copy on write at every level
struct Tree { int v[2]; }; // A.A.A=v0  A.A.B=v1
static HIID one(int i) { return HIID(AtomicID(i)); }
static void checkTree(const Record &r, int v0, int v1, int w) {
  const Record &b = r[one(10)].as<Record>(); CHECK((int)(const int &)r[one(12)].as<int>() == w, "the other field is untouched");
  const Record &c = b[one(10)].as<Record>(); CHECK((int)(const int &)c[one(10)].as<int>() == v0, "nested value"); CHECK((int)(const int &)c[one(11)].as<int>() == v1, "nested sibling");
}
ENTRY hook_chain() {
  int v0 = (int)sx_bits("v0", 32), v1 = (int)sx_bits("v1", 32), w = (int)sx_bits("w", 32), x = (int)sx_bits("x", 32), x2 = (int)sx_bits("x2", 32);
  Record::Ref top(new Record); ObjRef b(new Record), c(new Record); c.as<Record>().add(one(10), mkint(v0)); c.as<Record>().add(one(11), mkint(v1)); b.as<Record>().add(one(10), c); top().add(one(10), b); top().add(one(12), mkint(w)); b.detach(); c.detach();
  // other holders of the whole, or of any level below
  int sh = sx_choose("sh", 16); Record::Ref cp; ObjRef hb, hc, hl; if (sh & 1) cp.copy(top); if (sh & 2) hb = top[one(10)].ref(); if (sh & 4) hc = top[one(10)][one(10)].ref(); if (sh & 8) hl = top[one(10)][one(10)][one(10)].ref();
  Record::Ref clone; if (sx_choose("clone", 2)) clone <<= new Record(*top);
  HIID path = one(10) | AidSlash | AtomicID(10) | AidSlash | AtomicID(10);
  int e0 = x, e1 = v1, ew = w; int op = sx_choose("op", 9);
  switch (op) {
  case 0: top()[one(10)][one(10)][one(10)] = x; break;
  case 1: top()[path] = x; break;
  case 2: top()[one(10)][one(10)][one(10)].as_wr<int>() = x; break;
  case 3: { Record &r = top()[one(10)][one(10)].as_wr<Record>(); r[one(10)] = x; break; }
  case 4: { Record &r = top()[one(10)].as_wr<Record>(); r[one(10)][one(10)] = x; r[one(10)][one(11)] = x2; e1 = x2; break; }
  case 5: top()[one(10)][one(10)][one(10)].replace() = x; break;
  case 6: { ObjRef o = mkint(x); top()[one(10)][one(10)][one(10)].replace() = o; break; }
  case 7: { ObjRef o = top()[one(10)][one(10)][one(10)].remove(); CHECK(o.valid() && ival(o) == v0, "remove hands out the element"); CHECK(!top[one(10)][one(10)][one(10)].exists(), "and takes it out"); top()[one(10)][one(10)][one(10)] = x; break; }
  case 8: { top()[HIID(AtomicID(12)) | AidSlash] = x; e0 = v0; ew = x; break; }
  }
  checkTree(*top, e0, e1, ew);
  if (sh & 1) checkTree(*cp, v0, v1, w); if (clone.valid()) checkTree(*clone, v0, v1, w);
  if (sh & 2) { const Record &r = hb.as<Record>()[one(10)].as<Record>(); CHECK((int)(const int &)r[one(10)].as<int>() == v0 && (int)(const int &)r[one(11)].as<int>() == v1, "a holder of an inner record sees no change"); }
  if (sh & 4) CHECK((int)(const int &)hc.as<Record>()[one(10)].as<int>() == v0 && (int)(const int &)hc.as<Record>()[one(11)].as<int>() == v1, "a holder of the innermost record sees no change");
  if (sh & 8) CHECK(ival(hl) == v0, "a holder of the leaf sees no change");
  // a read-only path refuses to be written
  const Record &cr = *top; bool thr = false; try { const_cast<const Container::Hook &>(cr[one(10)][one(10)])[one(10)].as_wr<int>() = 1; } catch (std::exception &) { thr = true; } CHECK(thr, "writing through a read-only path is refused"); checkTree(*top, e0, e1, ew);
  sx_reach("end");
}
