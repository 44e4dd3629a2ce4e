// Requests, the commands they carry, request ids and dependency masks.
#include "sx.h"
#include <MEQ/Request.h>
#include <MEQ/RequestId.h>
#include <MEQ/Rider.h>
#include <MEQ/Forest.h>
#include <TimBase/Timer.h>
#include <MEQ/Cells.h>
#include <MEQ/SymdepMap.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/BlockSet.h>
#include <DMI/Vec.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
using namespace Meq;
extern "C" char *getcwd(char *b, size_t) throw() { strcpy(b, "/"); return b; }
double LOFAR::NSTimer::CPU_speed_in_MHz = 1000.;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
// ---- dependency masks
static int comp(const HIID &h, int i) { return i < int(h.size()) ? int(h[i]) : 0; }
static const HIID &DEP(int i) { static HIID d[4] = {HIID(AidState), HIID(AidDomain), HIID(AidIteration), HIID(AidState | AidDomain)}; return d[i]; }
ENTRY dep_masks() {
  SymdepMap m; int mask[4] = {0}; bool act[4] = {0}; const int S = TIERED(3, 4);
  for (int s = 0; s < S; s++) {
    int op = sx_choose(nm("op"), 4), r = -1; if (op == 0) { int k = sx_choose(nm("dep"), 4); mask[k] = (int)sx_bits(nm("mask"), 32); r = m.set(DEP(k), mask[k]); }
    else if (op == 1) { SymdepMap::DepSet set; int w = sx_choose(nm("set"), 6); static const int W[6] = {0, 1, 4, 5, 11, 15}; for (int k = 0; k < 4; k++) if ((act[k] = W[w] >> k & 1)) set.push_back(DEP(k)); r = m.setActive(set); }
    else if (op == 2) { DMI::Record::Ref rec = m.toRecord(); SymdepMap c; SymdepMap::DepSet all; for (int k = 0; k < 4; k++) { all.push_back(DEP(k)); } c.setActive(all); int e = 0; for (int k = 0; k < 4; k++) e |= mask[k]; CHECK(c.load(*rec) == e && c.getActiveMask() == e, "a map of dependencies survives as a record"); for (int k = 0; k < 4; k++) CHECK(c.getMask(DEP(k)) == mask[k], "a map of dependencies survives as a record"); continue; }
    else { DMI::Record rec; int k = sx_choose(nm("dep"), 4), v = (int)sx_bits(nm("mask"), 32); rec[DEP(k)] = v; for (int i = 0; i < 4; i++) mask[i] = i == k ? v : 0; r = m.load(rec); }
    int e = 0, a = 0; std::vector<HIID> some; for (int k = 0; k < 4; k++) { CHECK(m.getMask(DEP(k)) == mask[k], "a dependency has the mask given"); if (act[k]) e |= mask[k]; if (k != 1) a |= mask[k], some.push_back(DEP(k)); } CHECK(r == e && m.getActiveMask() == e, "the active mask is that of the active dependencies"); CHECK(m.getMask(some) == a && m.getMask(std::vector<HIID>()) == 0, "masks of dependencies combine"); if (e) sx_reach("active");
  }
  sx_reach("end");
}
ENTRY forest_ids() { // ids of successive requests differ in exactly the parts that were asked for
  Forest f; static const int M[5] = {2, 4, 8, 16, 32}; static HIID D[6] = {HIID(AidIteration), HIID(AidState), HIID(AidResolution), HIID(AidDomain), HIID(AidDataset), HIID(AidX)}; HIID id; int n = sx_choose("len", 4); if (n) { id.resize(n); for (int i = 0; i < n; i++) id[i] = AtomicID((int)sx_range(nm("part"), -3, 3)); } int last[5] = {0}; HIID orig = id; bool ch[6] = {0};
  for (int s = 0; s < TIERED(3, 4); s++) { int k = sx_choose(nm("dep"), 6); HIID was = id; f.incrRequestId(id, D[k]); CHECK(f.getDependMask(D[k]) == (k < 5 ? M[k] : 0), "dependencies have the masks laid down"); for (int i = 0; i < 7; i++) if (k == 5 || i != k + 1) CHECK(comp(id, i) == comp(was, i), "exactly the part of an id asked for changes"); if (k < 5) { int v = comp(id, k + 1); CHECK(!ch[k] || v != last[k], "a part that changes never repeats a value"); last[k] = v; ch[k] = true; sx_reach("changed"); } }
  sx_reach("end");
}
// ---- requests
struct MQ { HIID id, next; int cells; bool rider, group[2]; int has[2][3], val[2][3]; }; // per group: all, by index, by list
static HIID GRP(int g) { return g ? HIID(AidGroup) : HIID(AidAll); }
static int val(const DMI::Record &r) { return r[AidX].as<int>(0); }
static void isreq(const Request &q, const MQ &m) {
  CHECK(q.id() == m.id && q.nextId() == m.next, "a request has the ids given"); CHECK(q[FRequestId].as<HIID>(HIID()) == m.id && q[FNextRequestId].as<HIID>(HIID()) == m.next, "a request has the ids given"); CHECK(q.requestType() == (m.id.empty() ? AtomicID(0) : m.id[0]), "a request has the type given");
  int t = int(q.requestType()); CHECK(q.evalMode() == (t == 0 || t == Aidev.id() ? 0 : t == Aide1.id() ? 1 : t == Aide2.id() ? 2 : -1), "a request has the type given");
  CHECK(q.hasCells() == (m.cells > 0), "a request has the grid given"); if (m.cells > 0) CHECK(q.cells().ncells(0) == m.cells, "a request has the grid given");
  CHECK(q.hasRider() == m.rider, "a request has the commands given"); if (!m.rider) return; const DMI::Record &r = q.rider(); for (int g = 0; g < 2; g++) { CHECK(r.hasField(GRP(g)) == m.group[g], "a request has the commands given"); if (!m.group[g]) continue; const DMI::Record &gr = r.as<DMI::Record>(GRP(g));
    CHECK(gr.hasField(FCommandAll) == m.has[g][0] && gr.hasField(FCommandByNodeIndex) == m.has[g][1] && gr.hasField(FCommandByList) == m.has[g][2], "a request has the commands given"); if (m.has[g][0]) CHECK(val(gr.as<DMI::Record>(FCommandAll)) == m.val[g][0], "a request has the commands given"); if (m.has[g][1]) CHECK(val(gr.as<DMI::Record>(FCommandByNodeIndex)) == m.val[g][1], "a request has the commands given"); if (m.has[g][2] && m.val[g][2]) { const DMI::Container &c = gr.as<DMI::Container>(FCommandByList); CHECK(c.size() == 1 && val(c[0].as<DMI::Record>()) == m.val[g][2], "a request has the commands given"); } }
}
static HIID someId(int k) { HIID h; if (!k) return h; h.resize(k + 1); h[0] = k == 1 ? Aide1 : k == 2 ? Aidev : Aidpu; for (int i = 1; i <= k; i++) h[i] = AtomicID(-7 * i); return h; }
static bool few; // fewer choices of commands
static void qstep(Request::Ref &ref, MQ &m, const Request *other, const MQ *om) {
  int op = sx_choose(nm("op"), 9);
  if (op == 0) { m.id = someId(sx_choose(nm("id"), few ? 2 : 4)); ref().setId(m.id); }
  else if (op == 1) { m.next = someId(sx_choose(nm("id"), few ? 2 : 4)); ref().setNextId(m.next); }
  else if (op == 2) { if (m.id.empty()) m.id.resize(1); m.id[0] = Aide2; ref().setRequestType(Aide2); }
  else if (op == 3) { m.cells = 1 + sx_choose(nm("cells"), 2); Cells *c = new Cells; c->setCells(0, 0., 1. * m.cells, m.cells); c->recomputeDomain(); ref().setCells(c); }
  else if (op == 4) { Rider::clear(ref); ref().validateRider(); m.rider = false; memset(m.group, 0, sizeof m.group); memset(m.has, 0, sizeof m.has); }
  else if (op == 5) { ref().clearRider(); m.rider = false; memset(m.group, 0, sizeof m.group); memset(m.has, 0, sizeof m.has); }
  else if (op == 6) { if (!other) return; ref().copyRider(*other); m.rider = om->rider; memcpy(m.group, om->group, sizeof m.group); memcpy(m.has, om->has, sizeof m.has); memcpy(m.val, om->val, sizeof m.val); }
  else { int g = few ? 0 : sx_choose(nm("group"), 2), k = sx_choose(nm("kind"), 3), fl = few ? 2 * sx_choose(nm("flags"), 2) : sx_choose(nm("flags"), 4); fl = fl == 3 ? 4 : fl; int v = 1 + ((int)sx_bits(nm("command"), 32) & 0xffff);
    if (fl & 1) { memset(m.group, 0, sizeof m.group); memset(m.has, 0, sizeof m.has); } if (fl & 3) memset(m.has[g], 0, sizeof m.has[g]); if (fl & 7) m.has[g][k] = 0; bool had = m.has[g][k]; m.rider = m.group[g] = true; m.has[g][k] = 1; if (!had) m.val[g][k] = 0;
    if (op == 7) m.val[g][k] = v;
    if (k == 2) { DMI::Vec &l = Rider::getCmdRec_ByList(ref, GRP(g), fl); if (op == 7) { if (!had || !l.size()) l.init(TpDMIRecord, 1); DMI::Record *c = new DMI::Record; (*c)[AidX] = v; l.put(0, c, DMI::REPLACE); } }
    else { DMI::Record &r = k ? Rider::getCmdRec_ByNodeIndex(ref, GRP(g), fl) : Rider::getCmdRec_All(ref, GRP(g), fl); if (op == 7) r[AidX].replace() = v; } ref().validateRider(); sx_reach("command"); }
}
static ObjRef resend(const BObj &o) { BlockSet s; int n = o.toBlock(s); CHECK(n == s.size(), "announced number of blocks"); ObjRef r = DynamicTypeManager::construct(0, s); CHECK(s.size() == 0, "all blocks used up"); return r; }
static void qinit(Request::Ref &r, MQ &m) { m.cells = 0; m.rider = false; memset(m.group, 0, sizeof m.group); memset(m.has, 0, sizeof m.has); memset(m.val, 0, sizeof m.val); int k = sx_choose(nm("start"), 3); if (!k) { r <<= new Request; return; } m.id = someId(k); m.cells = 2; Cells *c = new Cells; c->setCells(0, 0., 2., 2); c->recomputeDomain(); if (k == 1) r <<= new Request(c, m.id); else { Cells::Ref cr(c); r <<= new Request(*c, m.id); } }
ENTRY request_history() { Request::Ref r; MQ m; qinit(r, m); isreq(*r, m); MQ om; Request::Ref o; om.cells = 0; om.rider = true; om.group[0] = true; om.group[1] = false; memset(om.has, 0, sizeof om.has); memset(om.val, 0, sizeof om.val); om.has[0][0] = 1; om.val[0][0] = 77; o <<= new Request; Rider::getCmdRec_All(o, GRP(0))[AidX] = 77; o().validateRider(); for (int i = 0; i < TIERED(2, 3); i++) { qstep(r, m, &*o, &om); isreq(*r, m); isreq(*o, om); } sx_reach("end"); }
ENTRY request_copy() {
  few = TIERED(1, 0);  Request::Ref r; MQ m; qinit(r, m); qstep(r, m, 0, 0); if (TIERED(0, 1)) qstep(r, m, 0, 0); MQ c = m; Request::Ref rc; ObjRef ro; int how = sx_choose("copy", 6); Request &q = r();
  if (how == 0) { ro = resend(q); rc = ro.ref_cast<Request>(); ro.detach(); } else if (how == 1) rc <<= new Request(static_cast<const DMI::Record &>(q)); else if (how == 2) rc.attach(static_cast<Request *>(q.clone(0, 0)), DMI::ANONWR); else if (how == 3) { rc = r; rc.dewr(); } else if (how == 4) rc <<= new Request(q); else { rc <<= new Request; rc() = q; }
  isreq(*rc, c); isreq(*r, m); sx_reach("copied"); int side = sx_choose("side", 3); if (side == 0) qstep(rc, c, 0, 0); else if (side == 1) qstep(r, m, 0, 0); else { r.detach(); isreq(*rc, c); qstep(rc, c, 0, 0); isreq(*rc, c); sx_reach("end"); return; } isreq(*rc, c); isreq(*r, m); sx_reach("end");
}
