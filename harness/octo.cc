// Messages and subscriptions: wire form, copies, damage, who is subscribed to what
#include "sx.h"
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/Subscriptions.h>
#include <DMI/NumArray.h>
#include <DMI/Vec.h>
#include <DMI/DynamicTypeManager.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
using namespace Octopussy;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static HIID anyid(const char *p, int n) { HIID h; for (int i = 0; i < n; i++) h.push_back(AtomicID((int)sx_bits(nm(p), 32))); return h; }
static MsgAddress anyaddr(const char *p) { return MsgAddress(anyid(p, 4)); }
struct Exp { HIID id; MsgAddress from, to; int pri, state, flags, hops, pk, bn; long v; char b[4]; };
static void verify(const Message &m, const Exp &e) {
  CHECK(m.id() == e.id, "identifier of the message"); CHECK(m.from() == e.from, "sender address"); CHECK(m.to() == e.to, "destination address"); CHECK(m.from().size() == 4 && m.to().size() == 4, "an address has four parts");
  CHECK(m.priority() == e.pri, "priority"); CHECK(m.state() == e.state, "state"); CHECK(m.flags_ == e.flags, "flags"); CHECK(m.hops() == (short)e.hops, "hop count");
  CHECK(m.block().valid() == (e.bn >= 0), "presence of a data block"); if (e.bn >= 0) { CHECK(m.datasize() == (size_t)e.bn, "size of the data block"); CHECK(e.bn == 0 || !memcmp(m.data(), e.b, e.bn), "bytes of the data block"); }
  CHECK(m.payload().valid() == (e.pk > 0), "presence of a payload"); HIID f(AtomicID(12));
  if (e.pk == 1) { CHECK(m.payloadType() == TpDMIRecord, "type of the payload"); CHECK(m.record()[f].as<int>() == (int)e.v, "record payload"); CHECK(m[f].as<int>() == (int)e.v, "subscripting a message addresses the payload"); }
  if (e.pk == 2) { CHECK(m.payloadType() == TpDMINumArray, "type of the payload"); const NumArray &a = m.payload().as<NumArray>(); CHECK(a.elementType() == Tpdouble && a.rank() == 1 && a.shape()[0] == 1 && !memcmp(a.getConstDataPtr(), &e.v, 8), "array payload"); }
  if (e.pk == 3) { CHECK(m.payloadType() == TpDMIVec, "type of the payload"); CHECK(m.payload().as<Vec>()[HIID()].as<int>() == (int)e.v, "vector payload"); }
}
static BObj *pload(int pk, long v) {
  if (pk == 1) { Record *r = new Record; (*r)[HIID(AtomicID(12))] = (int)v; return r; }
  if (pk == 2) { NumArray *a = new NumArray(Tpdouble, LoShape(1)); memcpy(a->getDataPtr(), &v, 8); return a; }
  int i = (int)v; return new Vec(Tpint, -1, &i);
}
static void fill(SmartBlock *b, Exp &e) { if (e.bn) memcpy(b->data(), e.b, e.bn); }
// a message made in one of the possible ways
static void make(Message::Ref &ref, Exp &e, int small) {
  int idn = small ? 1 : sx_choose("idn", 3); e.id = small ? HIID(AtomicID(5)) : anyid("id", idn); e.pri = (int)sx_bits("pri", 32); e.state = e.flags = e.hops = 0; e.pk = 0; e.bn = -1; e.v = small ? 3 : sx_bits("pv", 64); sx_bytes("blk", e.b, 4);
  int how = sx_choose("how", 10); Message *m = 0;
  switch (how) {
  case 0: m = new Message; ref <<= m; m->setId(e.id); m->setPriority(e.pri); break;
  case 1: m = new Message(e.id, e.pri); break;
  case 2: e.pk = 1 + sx_choose("pk", 3); m = new Message(e.id, pload(e.pk, e.v), 0, e.pri); break;
  case 3: { e.pk = 1; const BObj *p = pload(e.pk, e.v); m = new Message(e.id, p, 0, e.pri); break; }
  case 4: { e.pk = 1; ObjRef o(pload(e.pk, e.v)); m = new Message(e.id, o, 0, e.pri); break; }
  case 5: { e.bn = sx_choose("bn", 4); SmartBlock *b = new SmartBlock(e.bn); fill(b, e); m = new Message(e.id, b, 0, e.pri); break; }
  case 6: { e.bn = 3; SmartBlock *b = new SmartBlock(e.bn); fill(b, e); m = new Message(e.id, (const SmartBlock *)b, 0, e.pri); break; }
  case 7: { e.bn = 2; SmartBlock *b = new SmartBlock(e.bn); fill(b, e); BlockRef r(b); m = new Message(e.id, r, 0, e.pri); break; }
  case 8: e.bn = 1 + sx_choose("bn", 3); m = new Message(e.id, e.b, (size_t)e.bn, e.pri); break;
  case 9: Message::withRecord(ref, e.id)[HIID(AtomicID(12))] = (int)e.v; e.pk = 1; m = ref.dewr_p(); e.pri = Message::PRI_NORMAL; break;
  }
  if (how != 0 && how != 9) ref <<= m;
  CHECK(m->to() == MsgAddress() && m->from() == MsgAddress(), "a new message has no addresses"); e.to = m->to(); e.from = m->from(); verify(*m, e);
  if (small) return;
  e.from = anyaddr("f"); e.to = anyaddr("t"); m->setFrom(e.from); m->setTo(e.to); e.state = (int)sx_bits("state", 32); m->setState(e.state); e.flags = (int)sx_bits("flags", 32); m->flags_ = e.flags; e.hops = (short)sx_bits("hops", 16); m->setHops(e.hops);
  if (how < 2) { int add = sx_choose("add", 4); if (add & 1) { e.pk = 3; *m <<= pload(3, e.v); } if (add & 2) { e.bn = 4; SmartBlock *b = new SmartBlock(4); fill(b, e); *m <<= b; } }
  verify(*m, e);
}
static void scribble(Message &m, const Exp &e) { m.setId(HIID(AtomicID(77))); m.setState(e.state ^ 1); m.setPriority(e.pri ^ 1); m.setTo(MsgAddress(AtomicID(1))); m.setHops(e.hops ^ 1); m.flags_ ^= 1; if (e.bn > 0) ((char *)m.data())[0] ^= 1; if (e.pk == 1) m[HIID(AtomicID(12))] = (int)e.v ^ 1; if (e.pk == 2) *(long *)m.payload().as<NumArray>().getDataPtr() ^= 1; if (e.pk == 3) m.payload().as<Vec>()[HIID()] = (int)e.v ^ 1; }
ENTRY msg_roundtrip() {
  Exp e; Message::Ref ref; make(ref, e, 0); BlockSet bs; SmartBlock *tail = new SmartBlock(3); BlockRef tr(tail); int n = ref->toBlock(bs); CHECK(n == (int)bs.size(), "the number of blocks written is the number reported"); verify(*ref, e); BlockSet keep; bs.pushCopy(keep); keep.pushCopy(bs); bs.push(tr);
  if (sx_choose("scribble", 2)) { scribble(ref, e); sx_reach("scribble"); }
  Message q; bool used = sx_choose("used", 2); if (used) { q <<= pload(1, 5); q <<= new SmartBlock(2); } int k = q.fromBlock(bs); CHECK(k == n && bs.size() == 1 && bs.front()->data() == tail->data(), "unpacking uses up exactly the blocks of the message"); verify(q, e);
  ObjRef o = DynamicTypeManager::construct(0, keep); CHECK(o->objectType() == TpOctopussyMessage && keep.empty(), "a message is recognised by its type"); verify(o.as<Message>(), e); scribble(q, e); verify(o.as<Message>(), e); sx_reach("end");
}
ENTRY msg_copy() {
  Exp e; Message::Ref ref; make(ref, e, 0); MsgAddress fw = anyaddr("w"); ref().setForwarder(fw); Message::Ref c; int how = sx_choose("copy", 4); Message a;
  if (how == 0) { c = ref; c.privatize(DMI::WRITE); } else if (how == 1) c <<= new Message(*ref); else if (how == 2) { a = *ref; c <<= new Message(a); } else c <<= new Message(*ref, DMI::DEEP, 100);
  verify(*c, e); CHECK(c->forwarder() == fw, "a copy keeps the forwarder"); bool which = sx_choose("which", 2); Message::Ref &x = which ? c : ref, &y = which ? ref : c; scribble(x, e); verify(*y, e); sx_reach("end");
}
ENTRY msg_damaged() {
  Exp e; Message::Ref ref; make(ref, e, 1); int add = sx_choose("add", 2); if (add) { ref() <<= pload(1, e.v); ref() <<= new SmartBlock(2); } ref().setFrom(MsgAddress(AtomicID(2), 3, 4, 5)); BlockSet src, bs; ref->toBlock(src); int nb = src.size(), which = sx_choose("blk", nb + 1), i = 0, how = sx_choose("dmg", 3);
  for (BlockSet::const_iterator it = src.begin(); it != src.end(); ++it, i++) {
    const SmartBlock &b = **it; int sz = b.size(); if (which == nb ? (i != 0 || how == 2) : i != which) { bs.push(BlockRef((SmartBlock *)b.clone())); continue; } if (which == nb && how == 1) continue;
    if (how == 2) continue; int n = sz; if (how == 1) n = sx_choose("cut", sz + 4); if (how == 0 && sz < 4) { sx_reach("end"); return; } SmartBlock *q = new SmartBlock(n, DMI::ZERO); memcpy(q->data(), b.data(), n < sz ? n : sz);
    if (how == 0) { int w = sx_choose("word", sz / 4); int x; int old = ((const int *)b.data())[w];
      if (w == 0 || (i == 0 && (old == TpDMIRecord_int || old == TpDMINumArray_int || old == TpDMIVec_int)) || (i == 0 && w == 10)) { static const int T[] = {0, 1, -1, TpDMIVec_int, TpDMIRecord_int, TpDMIList_int, TpDMINumArray_int, Tpint_int, Tpstring_int, TpOctopussyMessage_int}; x = T[sx_choose("tid", 10)]; }
      else if (i > 0) { static const int A[] = {0, -1, 10, 11, 1 << 30, -100000}; x = A[sx_choose("aid", 6)]; } else x = (int)sx_bits("x", 32);
      memcpy((char *)q->data() + 4 * w, &x, 4); }
    bs.push(BlockRef(q));
  }
  Message q;
  try { int n = q.fromBlock(bs); sx_reach("accepted"); CHECK(n >= 1 && n <= nb + 1, "count"); CHECK(q.from().size() == 4 && q.to().size() == 4, "an address has four parts"); BlockSet out; q.toBlock(out); Message z(q, DMI::DEEP, 100); if (how) (void)q.sdebug(2); (void)q.from().host(); sx_reach("walked"); } catch (std::exception &) { sx_reach("refused"); }
  sx_reach("end");
}
// ---- subscriptions
static bool mt(const int *a, int n, const int *b, int k) { // b: plain identifier; a: pattern, -1 is ?, -2 is * (the rest)
  for (int i = 0;; i++) { if (i < n && a[i] == -2) return true; if (i >= n || i >= k) return i >= n && i >= k; if (a[i] != -1 && a[i] != b[i]) return false; }
}
struct Sub { int m[2], mn, s[4]; bool on; };
static AtomicID at(int x) { return x == -1 ? AidAny : x == -2 ? AidWildcard : AtomicID(x); }
static void mask(int *m, int &n, HIID &h, bool two) {
  int k = sx_choose(nm("mask"), two ? 6 : 4); n = 0; h.clear();
  if (k == 0) { n = 1; m[0] = (int)sx_range(nm("a"), 1, 2); } else if (k == 1) { n = 2; m[0] = (int)sx_range(nm("a"), 1, 2); m[1] = -2; } else if (k == 2) { n = 2; m[0] = -1; m[1] = (int)sx_range(nm("a"), 1, 2); } else if (k == 3) { n = 1; m[0] = -2; } else if (k == 4) { n = 2; m[0] = (int)sx_range(nm("a"), 1, 2); m[1] = (int)sx_range(nm("b"), 1, 2); } else { n = 2; m[0] = (int)sx_range(nm("a"), 1, 2); m[1] = -1; }
  for (int i = 0; i < n; i++) h.push_back(at(m[i]));
}
static MsgAddress scope(int *s) { int k = sx_choose(nm("scope"), 3); for (int i = 0; i < 4; i++) s[i] = -1; if (k == 1) s[3] = (int)sx_range(nm("h"), 1, 2); if (k == 2) { s[2] = 1; s[3] = 1; } HIID h; for (int i = 0; i < 4; i++) h.push_back(at(s[i])); return MsgAddress(h); }
static bool sub(const int *a, int n, const int *b, int k) { for (int i = 0;; i++) { if (i < k && b[i] == -2) return true; if (i >= n || i >= k) return i >= n && i >= k; if (a[i] == -2) return false; if (b[i] != -1 && b[i] != a[i]) return false; } }
static void probe(const Subscriptions &S, const Sub *su, int ns, const char *w) {
  int id[3], n = 1 + sx_choose(nm("pn"), 2), f[4] = {5, 6, 0, 0}; HIID h; for (int i = 0; i < n; i++) { id[i] = (int)sx_range(nm("p"), 1, 3); h.push_back(AtomicID(id[i])); } f[2] = (int)sx_range(nm("pp"), 1, 2); f[3] = (int)sx_range(nm("ph"), 1, 3); HIID fa; for (int i = 0; i < 4; i++) fa.push_back(AtomicID(f[i]));
  Message m(h); m.setFrom(MsgAddress(fa)); bool exp = false; for (int i = 0; i < ns; i++) if (su[i].on && mt(su[i].m, su[i].mn, id, n) && mt(su[i].s, 4, f, 4)) exp = true; sx_reach(exp ? "match" : "nomatch");
  sx_assert(S.matches(m) == exp, w); size_t sz = S.packSize(), left = sz + 8; char *buf = new char[sz ? sz : 1]; left = sz; size_t got = S.pack(buf, left); CHECK(got == sz && left == 0, "packed size is the announced size");
  Subscriptions u; u.unpack(buf, sz); CHECK(u.matches(m) == exp, "unpacked subscriptions match the same messages"); CHECK(u.size() == S.size() && u.packSize() == sz, "unpacked subscriptions have the same size"); delete[] buf;
}
ENTRY subs_history() {
  Subscriptions S; Sub su[4]; int ns = 0, K = TIERED(2, 3);
  for (int i = 0; i < K; i++) { int op = i == 0 ? 0 : sx_choose(nm("op"), 3);
    if (op == 0) { HIID h; Sub &x = su[ns]; mask(x.m, x.mn, h, i == 0); MsgAddress sc = scope(x.s); x.on = true; ns++; bool had = false; for (int j = 0; j < ns - 1; j++) if (su[j].on && sub(x.m, x.mn, su[j].m, su[j].mn) && sub(x.s, 4, su[j].s, 4)) had = true; CHECK(S.add(h, sc) == !had, "subscribing reports whether anything changes"); }
    else if (op == 1) { HIID h; int m[2], n; mask(m, n, h, true); bool any = false; int gone = 0; for (int j = 0; j < ns; j++) if (su[j].on && sub(su[j].m, su[j].mn, m, n)) { su[j].on = false; any = true; gone |= 1 << j; } bool need = false; for (int j = 0; j < ns; j++) if (gone & (1 << j)) { bool cov = false; for (int k = 0; k < ns; k++) if (su[k].on && sub(su[j].m, su[j].mn, su[k].m, su[k].mn) && sub(su[j].s, 4, su[k].s, 4)) cov = true; need |= !cov; }
      bool r = S.remove(h); CHECK(any || !r, "unsubscribing from something never subscribed to changes nothing"); CHECK(r || !need, "unsubscribing reports that something changed"); }
    else { Subscriptions T; HIID h; Sub &x = su[ns]; mask(x.m, x.mn, h, false); MsgAddress sc = scope(x.s); x.on = true; ns++; T.add(h, sc); S.merge(T); }
  }
  probe(S, su, ns, "a message is wanted exactly when one of the subscriptions matches it"); sx_reach("end");
}
ENTRY subs_damaged() {
  Subscriptions S; int n = sx_choose("n", 3); for (int i = 0; i < n; i++) { HIID h; for (int j = 0; j <= i; j++) h.push_back(AtomicID(5 + i + j)); S.add(h, MsgAddress(AtomicID(2), AidAny, i ? AidAny : AtomicID(3), AidAny)); } if (S.size() != n) return;
  size_t sz = S.packSize(), left = sz, k = sz; char *buf = new char[sz + 4]; S.pack(buf, left); int how = sx_choose("how", 2); if (how == 0) { int w = sx_choose("word", (int)sz / 8); long x = sx_bits("x", 64); memcpy(buf + 8 * w, &x, 8); } else k = sx_choose("cut", (int)sz + 4);
  char *b = new char[k ? k : 1]; memcpy(b, buf, k); Subscriptions u;
  try { u.unpack(b, k); sx_reach("accepted"); Message m(HIID(AtomicID(1))); m.setFrom(MsgAddress(AtomicID(2), 3, 4, 5)); (void)u.matches(m); size_t l2 = u.packSize(); char *o = new char[l2]; size_t g = u.pack(o, l2); CHECK(g == u.packSize(), "accepted subscriptions pack to their announced size"); delete[] o; } catch (std::exception &) { sx_reach("refused"); }
  delete[] b; delete[] buf; sx_reach("end");
}
