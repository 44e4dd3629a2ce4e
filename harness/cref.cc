// CountedRef: copy-on-write isolation, sharing, ownership, locking; sequential histories and two-thread schedules
#include "sx.h"
#include <DMI/CountedRef.h>
#include <DMI/HIID.h>
#include <cstdio>
#include <exception>
#include <pthread.h>
#include <atomic>
using namespace DMI;
static int live;
struct Cell : public CountedRefTarget {
  int v;
  explicit Cell(int x = 0) : v(x) { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); }
  Cell(const Cell &o) : CountedRefTarget(o), v(o.v) { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); }
  ~Cell() { __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); v = -7777; }
  CountedRefTarget *clone(int = 0, int = 0) const { return new Cell(*this); }
};
typedef CountedRef<Cell> Ref;
// ---- reference model
struct MO { int v; bool anon, alive, ever; int n; };
struct MR { int o; bool wr, sh, lk; };
static MO mo[24]; static int nmo; static MR mr[4]; static Ref *ref[4]; static Cell *ext;
static int mnew(int v, bool anon) { mo[nmo] = MO{v, anon, true, true, 0}; return nmo++; }
static void mdrop(int i) { if (mr[i].o >= 0) { MO &o = mo[mr[i].o]; if (!--o.n && o.anon) o.alive = false; } mr[i] = MR{-1, false, false, false}; }
static void mset(int i, int o, bool wr, bool sh, bool lk) { mr[i] = MR{o, wr, sh, lk}; mo[o].n++; }
static bool monly(int i) { return mo[mr[i].o].n == 1; }
// the ref gets its own anonymous copy unless it already has one
static bool lkAny[4]; // a private copy taken through a locked ref: whether the lock survives is not specified
static void mpriv(int i, int flags) {
  MR &r = mr[i]; MO &o = mo[r.o];
  if (!o.anon || !monly(i) || !r.wr || (flags & DMI::DEEP)) { int v = o.v; bool keep = r.lk; mdrop(i); mset(i, mnew(v, true), true, false, keep); lkAny[i] = keep; }
  if (flags & DMI::LOCKED) r.lk = true; else if (flags & DMI::UNLOCKED) r.lk = false;
  if (flags & (DMI::LOCKED | DMI::UNLOCKED)) lkAny[i] = false;
  if (flags & DMI::SHARED) r.sh = true; else if (flags & DMI::COW) r.sh = false;
  r.wr = true;
}
static void verifyAll(int nref) {
  int alive = 0; for (int i = 0; i < nmo; i++) alive += mo[i].alive;
  CHECK(live == alive, "an object lives exactly as long as something owns it");
  for (int i = 0; i < nref; i++) {
    bool ok = ref[i]->valid() == (mr[i].o >= 0); CHECK(ok, "validity"); if (mr[i].o < 0) { lkAny[i] = false; continue; }
    CHECK((*ref[i])->v == mo[mr[i].o].v, "every ref sees exactly the writes made through it or its shared siblings");
    if (lkAny[i]) { mr[i].lk = ref[i]->isLocked(); lkAny[i] = false; } CHECK(ref[i]->isLocked() == mr[i].lk, "lock state"); CHECK(ref[i]->isDirectlyWritable() == (mr[i].sh || (mr[i].wr && monly(i))), "a write goes to the object itself exactly when it is shared or nobody else refers to it"); CHECK(ref[i]->isOnlyRef() == monly(i), "reference count"); CHECK(ref[i]->isAnonTarget() == mo[mr[i].o].anon, "ownership");
    for (int j = 0; j < i; j++) if (mr[j].o >= 0) CHECK((ref[i]->deref_p() == ref[j]->deref_p()) == (mr[i].o == mr[j].o), "aliasing");
  }
}
static int wv;
static void op(int k, int nref) {
  char b[32]; snprintf(b, 32, "op%d", k); int o = sx_choose(b, 11); snprintf(b, 32, "i%d", k); int i = sx_choose(b, nref); int j = 0;
  snprintf(b, 32, "j%d", k); if (o == 1 || o == 2 || o == 9) j = sx_choose(b, nref);
  MR &r = mr[i]; Ref &x = *ref[i]; bool thr = false, want = false; static const int FL[] = {0, DMI::DEEP, DMI::LOCKED, DMI::SHARED, DMI::COW, DMI::DEEP | DMI::LOCKED};
  try {
    switch (o) {
    case 0: { snprintf(b, 32, "f%d", k); int f = sx_choose(b, 3); want = r.lk && r.o >= 0; int v = 1000 + k; int flags = f == 1 ? DMI::LOCKED : f == 2 ? DMI::SHARED : 0; if (want) { Cell c(v); x.attach(c, flags | DMI::EXTERNAL); } else { mdrop(i); mset(i, mnew(v, true), true, f == 2, f == 1); x.attach(new Cell(v), flags); } break; }
    case 1: { snprintf(b, 32, "f%d", k); int fl = FL[sx_choose(b, 6)]; want = i != j && r.lk && r.o >= 0; if (!want && i != j) { MR s = mr[j]; mdrop(i); if (s.o >= 0) { mset(i, s.o, s.wr, s.sh, false); if (fl & DMI::DEEP) mpriv(i, fl); else { r.lk = fl & DMI::LOCKED; if (fl & DMI::SHARED) r.sh = true; else if (fl & DMI::COW) r.sh = false; } } }
      x.copy(*ref[j], fl, -1); break; }
    case 2: { snprintf(b, 32, "f%d", k); int fl = FL[sx_choose(b, 6)]; bool d1 = i != j && r.lk && r.o >= 0, d2 = i != j && !d1 && mr[j].o >= 0 && mr[j].lk; want = d1 || d2;
      if (i != j && !d1) { mdrop(i); if (!d2 && mr[j].o >= 0) { MR s = mr[j]; mr[j] = MR{-1, false, false, false}; r = MR{s.o, s.wr, s.sh, false}; if (fl & DMI::DEEP) mpriv(i, fl); else { r.lk = fl & DMI::LOCKED; if (fl & DMI::SHARED) r.sh = true; else if (fl & DMI::COW) r.sh = false; } } }
      x.xfer(*ref[j], fl, -1); break; }
    case 3: want = r.o >= 0 && r.lk; if (!want) mdrop(i); x.detach(); break;
    case 4: case 5: { want = r.o < 0; if (!want) { if (!((r.wr && monly(i)) || r.sh)) mpriv(i, 0); mo[r.o].v = wv + k; } x.dewr().v = wv + k; sx_reach(r.o >= 0 ? "write" : "badwrite"); break; }
    case 6: { snprintf(b, 32, "f%d", k); int f = sx_choose(b, 3); int fl = f == 1 ? DMI::DEEP : f == 2 ? DMI::LOCKED : 0; want = r.o < 0; if (!want) mpriv(i, fl); x.privatize(fl, 0); break; }
    case 7: want = r.o < 0; if (!want) r.lk = true; x.change(DMI::LOCKED); break;
    case 8: want = r.o < 0; if (!want) r.lk = false; x.change(DMI::UNLOCKED); break;
    case 9: { // attach to the object another ref points at
      if (mr[j].o < 0) break; if (mr[j].o == r.o) { x.attach(const_cast<Cell *>(ref[j]->deref_p())); break; }
      want = r.o >= 0 && r.lk; Cell *c = const_cast<Cell *>(ref[j]->deref_p()); if (!want) { int t = mr[j].o; mo[t].n++; mdrop(i); mo[t].n--; mset(i, t, true, false, false); } x.attach(c); break; }
    default: want = r.o < 0; if (!want) r.wr = false; x.change(DMI::READONLY); break;
    }
  } catch (std::exception &) { thr = true; }
  CHECK(thr == want, "operation is refused exactly when the rules say so (locked or empty ref)");
  if (thr) sx_reach("refused");
  verifyAll(nref);
}
static void setup(int nref) {
  live = 0; nmo = 0; for (int i = 0; i < 4; i++) mr[i] = MR{-1, false, false, false};
  wv = (int)sx_range("w", 0, 100); ext = new Cell(5); mnew(5, false);
  for (int i = 0; i < nref; i++) ref[i] = new Ref;
  int v0 = (int)sx_bits("v0", 31); ref[0]->attach(new Cell(v0)); mset(0, mnew(v0, true), true, false, false);
  int c1 = sx_choose("c1", 4); if (c1 == 1) { ref[1]->copy(*ref[0]); mset(1, mr[0].o, true, false, false); } else if (c1 == 2) { ref[1]->copy(*ref[0], DMI::SHARED); mset(1, mr[0].o, true, true, false); ref[0]->change(DMI::SHARED); mr[0].sh = true; } else if (c1 == 3) { ref[1]->attach(ext, DMI::EXTERNAL); mset(1, 0, true, false, false); }
  if (nref > 2) { int c2 = sx_choose("c2", 3); if (c2 && mr[c2 - 1].o >= 0) { ref[2]->copy(*ref[c2 - 1]); mset(2, mr[c2 - 1].o, mr[c2 - 1].wr, mr[c2 - 1].sh, false); } }
  verifyAll(nref);
}
static void finish(int nref) {
  // a write through a fresh copy of any one of them goes where the rules say
  int pr = sx_choose("probe", nref);
  if (mr[pr].o >= 0) { int f = nref; ref[f] = new Ref; mr[f] = MR{-1, false, false, false}; MR sv = mr[pr]; mset(f, sv.o, sv.wr, sv.sh, false); ref[f]->copy(*ref[pr]); nref++; verifyAll(nref); if (!((mr[f].wr && monly(f)) || mr[f].sh)) mpriv(f, 0); mo[mr[f].o].v = wv + 50; ref[f]->dewr().v = wv + 50; verifyAll(nref); }
  for (int i = 0; i < nref; i++) { delete ref[i]; mdrop(i); int alive = 0; for (int k = 0; k < nmo; k++) alive += mo[k].alive; CHECK(live == alive, "destroying a ref releases its object exactly when it was the last owner"); }
  CHECK(live == 1 && ext->v >= 0, "external objects are never destroyed by refs"); delete ext; CHECK(live == 0, "nothing left"); sx_reach("end");
}
ENTRY cref_history2() { int n = 2; setup(n); for (int k = 0; k < TIERED(2, 3); k++) op(k, n); finish(n); }
ENTRY cref_history3() { int n = 3; setup(n); for (int k = 0; k < TIERED(1, 2); k++) op(k, n); finish(n); }

// ---- two threads, each with its own ref to a common object
static Ref *tr[2]; static int seen[2], tv0, top[2];
static void body(int i) {
  Ref &x = *tr[i];
  switch (top[i]) {
  case 0: x.dewr().v = 100 + i; seen[i] = x->v; x.detach(); break;
  case 1: seen[i] = x->v; x.detach(); break;
  case 2: { Ref y(x); y.dewr().v = 200 + i; seen[i] = x->v; if (y->v != 200 + i) seen[i] = -1; x.detach(); break; }
  default: { Ref y(x, DMI::XFER); seen[i] = y->v; Ref z(y); y.detach(); if (z->v != seen[i]) seen[i] = -1; break; }
  }
}
static void *run(void *p) { body((int)(long)p); return 0; }
ENTRY cref_threads() {
  live = 0; tv0 = (int)sx_range("v0", 0, 50); top[0] = sx_choose("t0", 4); top[1] = sx_choose("t1", 4); sx_assume(top[0] <= top[1]); bool third = sx_choose("third", 2);
  Ref a(new Cell(tv0)), b(a), c; if (third) c.copy(a); tr[0] = &a; tr[1] = &b;
  pthread_t t; pthread_create(&t, 0, run, (void *)1); body(0); pthread_join(t, 0);
  for (int i = 0; i < 2; i++) CHECK(seen[i] == (top[i] == 0 ? 100 + i : tv0), "a thread sees only its own writes to a copy-on-write object");
  if (third) { CHECK(c->v == tv0, "the remaining ref still sees the original value"); CHECK(c.isOnlyRef(), "and is now the only one"); CHECK(live == 1, "one object left"); c.detach(); }
  CHECK(live == 0, "every object destroyed exactly once"); sx_reach("end");
}
