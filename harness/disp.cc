// The message bus: routing, queues, events.  One real Dispatcher with test work processes.
#include "sx.h"
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <vector>
using namespace DMI;
using namespace Octopussy;
static int nv; static char nb_[32];
static const char *nm(const char *p) { snprintf(nb_, 32, "%s%d", p, nv++); return nb_; }
static const int PROC = 1201, HOST = 1301, CA = 1001, CB = 1002;
// environment: no real threads or signals are started
static void *(*ev_fn)(void *); static void *ev_arg; static int kicks;
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) { ev_fn = fn; ev_arg = arg; *t = 4242; return 0; }
int pthread_join(pthread_t, void **) { return 0; }
int pthread_kill(pthread_t, int) { kicks++; return 0; }
int pthread_sigmask(int, const sigset_t *, sigset_t *) throw() { return 0; }
}
struct W;
struct Hooks { virtual int receive(W &, Message::Ref &) { return Message::ACCEPT; } virtual int timeout(W &, const HIID &) { return Message::ACCEPT; } virtual int input(W &, int, int) { return Message::ACCEPT; } virtual int signal(W &, int) { return Message::ACCEPT; } };
static Hooks nohooks; static Hooks *H = &nohooks;
struct W : WorkProcess {
  int k; bool fwd; W(int cls, int i) : WorkProcess(AtomicID(cls)), k(i), fwd(false) {}
  bool willForward(const Message &) const override { return fwd; }
  int receive(Message::Ref &m) override { return H->receive(*this, m); }
  int timeout(const HIID &id) override { return H->timeout(*this, id); }
  int input(int fd, int fl) override { return H->input(*this, fd, fl); }
  int signal(int s) override { return H->signal(*this, s); }
};
static Dispatcher *boot() { WPInterface::setLogLevel(-1); return new Dispatcher(AtomicID(PROC), AtomicID(HOST)); }
// ---- routing
static bool any(int x) { return x == AidAny.id() || x == AidWildcard.id(); }
struct Log3 : Hooks { int got[4]; HIID id; MsgAddress from, to; long body[4]; bool write; int badw; Log3() : badw(-1) { for (int i = 0; i < 4; i++) got[i] = 0; }
  int receive(W &w, Message::Ref &m) override { got[w.k]++; CHECK(m->id() == id, "a delivered message keeps its identifier"); CHECK(m->from() == from, "a delivered message names its sender"); CHECK(m->to() == to, "a delivered message names the address it was sent to"); CHECK(m->priority() == 7, "priority of a delivered message"); if (!body[1]) CHECK(m->datasize() == 8 && *(const long *)m->data() == body[0], "every recipient sees the contents that were sent"); if (write) { m().setId(HIID(AtomicID(9))); m().setPriority(8); *(long *)m().data() ^= 1; } return Message::ACCEPT; } };
static void route(int how) {
  Dispatcher &d = *boot(); W *w[4]; w[0] = new W(CA, 0); w[1] = new W(CA, 1); w[2] = new W(CB, 2); w[3] = new W(CB + 1, 3);
  for (int i = 0; i < 4; i++) { d.attach(w[i], DMI::ANON); CHECK(w[i]->address().process() == AtomicID(PROC) && w[i]->address().host() == AtomicID(HOST), "an attached process gets the address of its dispatcher"); }
  CHECK(w[0]->address().inst() == 0 && w[1]->address().inst() == 1 && w[2]->address().inst() == 0, "instances of a class are numbered");
  d.declareForwarder(w[3]); w[3]->fwd = sx_range("fwd", 0, 1); d.start(); d.poll();
  // subscriptions of w0 and w2
  int sub[2]; for (int i = 0; i < 2; i++) { sub[i] = how == 0 && i == 0 ? 3 : sx_choose(nm("sub"), 4); if (sub[i]) CHECK(w[2 * i]->subscribe(AtomicID(5) | AidWildcard, sub[i] - 1), "subscribing reports a change"); }
  d.poll();
  Log3 L; H = &L; int after = sx_choose("after", 3); L.write = after == 1; L.body[1] = 0; L.body[0] = sx_bits("body", 64); SmartBlock *b = new SmartBlock(8); memcpy(b->data(), &L.body[0], 8);
  int a0 = (int)sx_range("id0", 4, 6); L.id = AtomicID(a0) | AtomicID(3); Message::Ref m(new Message(L.id, b, 0, 7));
  int src = sx_choose("src", 3), n, t[4]; // sender: w1, or a message brought in by the gateway from elsewhere
  if (how == 0) { t[0] = sx_choose("cls", 4); t[0] = t[0] == 0 ? CA : t[0] == 1 ? CB : t[0] == 2 ? AidAny.id() : AidPublish.id(); t[1] = (int)sx_range("inst", 0, 2); int wi = sx_choose("winst", 3); if (wi) t[1] = wi == 1 ? AidAny.id() : AidPublish.id();
    static const int PP[] = {PROC, PROC + 1, 0, 0}; int p = sx_choose("proc", 4), h = sx_choose("host", 4); t[2] = p < 2 ? PP[p] : p == 2 ? AidAny.id() : AidLocal.id(); t[3] = h < 2 ? HOST + h : h == 2 ? AidAny.id() : AidLocal.id(); if (src && (p == 3 || h == 3)) return; }
  else { t[0] = t[1] = AidPublish.id(); t[2] = t[3] = AidAny.id(); }
  int f[4] = {CA, 1, PROC, HOST}; if (src) { f[0] = CB; f[1] = 0; f[2] = src == 1 ? PROC + 1 : PROC; f[3] = src == 1 ? HOST : HOST + 1; }
  { HIID h; for (int i = 0; i < 4; i++) h.push_back(AtomicID(f[i])); L.from = MsgAddress(h); }
  int scope = -1; if (how == 1 && !src) { scope = sx_choose("scope", 3); if (scope < 2) t[3] = HOST; if (scope < 1) t[2] = PROC; }
  MsgAddress to; { HIID h; for (int i = 0; i < 4; i++) h.push_back(AtomicID(t[i])); to = MsgAddress(h); } if (t[2] == AidLocal.id()) t[2] = PROC; if (t[3] == AidLocal.id()) t[3] = HOST;
  { HIID h; for (int i = 0; i < 4; i++) h.push_back(AtomicID(t[i])); L.to = MsgAddress(h); }
  if (src) { m().setFrom(L.from); n = d.send(m, to); } else if (how == 0) n = w[1]->send(m, to); else if (after) n = w[1]->publish(m, 0, scope); else { L.body[1] = 1; n = w[1]->publish(L.id, sx_choose("fl", 2), scope, 7); }
  if (after == 2) { m().setId(HIID(AtomicID(8))); if (!L.body[1]) *(long *)m().data() ^= 2; m().setTo(MsgAddress(AtomicID(1))); } else m.detach();
  // who should have it
  int exp[4] = {0, 0, 0, 0}, tot = 0, c[4] = {CA, CA, CB, CB + 1}, in[4] = {0, 1, 0, 0};
  bool local = (any(t[2]) || t[2] == PROC) && (any(t[3]) || t[3] == HOST), wide = t[2] != PROC || t[3] != HOST;
  for (int i = 0; i < 4; i++) { if (local) { bool direct = (any(t[0]) || t[0] == c[i]) && (any(t[1]) || t[1] == in[i]); int s = i == 0 ? sub[0] : i == 2 ? sub[1] : 0; bool pub = t[0] == AidPublish.id() && s && a0 == 5 && (s == 3 || f[3] == HOST) && (s > 1 || f[2] == PROC); if (direct || pub) exp[i]++; } if (i == 3 && wide && w[3]->fwd) exp[i]++; tot += exp[i]; }
  CHECK(n == tot, "sending reports the number of deliveries"); d.poll();
  for (int i = 0; i < 4; i++) CHECK(L.got[i] == exp[i], "a message reaches exactly the processes it is addressed to, once each");
  if (tot) sx_reach("sent"); else sx_reach("none"); if (local && t[0] == AidPublish.id() && tot) sx_reach("published"); sx_reach("end");
}
ENTRY route_send() { route(0); }
ENTRY route_publish() { route(1); }
// ---- queue discipline
struct QM { int pri, idx; }; // model of one queue
struct Order : Hooks {
  std::vector<QM> q; W *self, *other; int calls, maxcalls, next, nops, pend, last, cnt[16]; bool stalled, inside, canop; long pris[16];
  Order() : calls(0), maxcalls(0), next(0), nops(0), pend(0), last(-1), stalled(false), inside(false), canop(false) { for (int i = 0; i < 16; i++) cnt[i] = 0; }
  void put(int pri, int idx) { size_t i = 0; while (i < q.size() && q[i].pri >= pri) i++; if (i == 0) stalled = false; q.insert(q.begin() + i, QM{pri, idx}); }
  void sendone() { int p = (int)sx_range(nm("pri"), 0, 4095), k = next++; put(p, k); int n = other->send(AtomicID(100 + k) | AtomicID(1), self->address(), 0, p); CHECK(n == 1, "one delivery"); }
  int receive(W &w, Message::Ref &m) override {
    if (&w == other) { pend--; CHECK(pend >= 0, "a message is delivered once"); return Message::ACCEPT; }
    CHECK(!inside, "a process is not re-entered while it handles a message"); CHECK(++calls <= maxcalls, "delivery comes to an end"); CHECK(!q.empty(), "only queued messages are delivered"); int idx = m->id()[0].id() - 100;
    CHECK(idx == q[0].idx, "the oldest message of the highest priority is delivered first"); cnt[idx]++; last = idx; stalled = false;
    int op = canop && nops > 0 ? sx_choose(nm("op"), 6) : 0; if (op) nops--; bool gone = false; inside = true;
    if (op == 1) sendone();
    else if (op == 2 && q.size() > 1) { int k = q[q.size() - 1].idx; w.dequeue(AtomicID(100 + k) | AidWildcard); q.pop_back(); }
    else if (op == 3) { int k = sx_choose(nm("pos"), (int)q.size()); Message::Ref r; w.dequeue(k, k ? &r : 0); if (k) CHECK(r->id()[0] == AtomicID(100 + q[k].idx), "removal by position removes that message"); q.erase(q.begin() + k); gone = k == 0; }
    else if (op == 4) { pend++; w.send(HIID(AtomicID(55)), other->address()); w.dsp()->poll(); CHECK(pend == 0, "other processes are served while one waits"); }
    else if (op == 5) { int k = q.back().idx, f = w.searchQueue(AtomicID(100 + k) | AtomicID(1), 0); CHECK(f == (int)q.size() - 1, "searching the queue finds the message"); m.detach(); inside = false; q.erase(q.begin()); return Message::ACCEPT; }
    int res = gone ? 0 : sx_choose(nm("res"), 3); inside = false; if (op == 0 && res && nops-- <= 0) res = 0;
    if (res == 0) { if (!gone) for (size_t i = 0; i < q.size(); i++) if (q[i].idx == idx) { q.erase(q.begin() + i); break; } return Message::ACCEPT; }
    if (res == 1) { stalled = q[0].idx == idx; return Message::HOLD; }
    for (size_t i = 0; i < q.size(); i++) if (q[i].idx == idx) { QM x = q[i]; q.erase(q.begin() + i); put(x.pri, x.idx); break; }
    stalled = q[0].idx == idx; return Message::REQUEUE;
  }
  void settled() { CHECK(q.empty() || stalled, "no message is left behind unless the one in front of it is held"); CHECK((int)self->queue().size() == (int)q.size(), "the queue holds exactly the undelivered messages"); }
};
static void queue(bool ops) {
  Dispatcher &d = *boot(); W *a = new W(CA, 0), *b = new W(CB, 1); d.attach(a, DMI::ANON); d.attach(b, DMI::ANON); d.start(); d.poll(); Order o; o.self = a; o.other = b; H = &o; o.canop = ops; o.nops = TIERED(2, 3); o.maxcalls = 12;
  int n = ops ? 2 : 3; if (!ops) n = TIERED(3, 4); for (int i = 0; i < n; i++) o.sendone(); d.poll(); o.settled(); if (!o.q.empty()) { sx_reach("held"); o.nops = 0; int k = o.last; o.sendone(); bool wake = !o.stalled; d.poll(); o.settled(); if (wake) { CHECK(o.q.empty(), "a message of higher priority gets a held queue going again"); sx_reach("woken"); } (void)k; }
  sx_reach("end");
}
ENTRY queue_order() { queue(false); }
ENTRY queue_ops() { queue(true); }
struct Fail : Hooks { int got[2], bad, n; bool thrown, ac; W *a; Fail() : bad(0), n(0), thrown(false) { got[0] = got[1] = 0; }
  int receive(W &w, Message::Ref &m) override { got[w.k]++; if (w.k == 0 && n++ == bad) { thrown = true; if (ac || sx_choose("exc", 2)) throw std::runtime_error("boom"); throw 5; } return Message::ACCEPT; } };
ENTRY queue_failure() { // a process that fails is taken out (or, if it asked for it, keeps running); the others are not affected
  Dispatcher &d = *boot(); W *a = new W(CA, 0), *b = new W(CB, 1); struct AC : W { AC() : W(CA, 0) { setAutoCatch(true); } }; bool ac = sx_choose("autocatch", 2); if (ac) { delete a; a = new AC; } d.attach(a, DMI::ANON); d.attach(b, DMI::ANON); d.start(); d.poll(); Fail f; H = &f; f.bad = sx_choose("bad", 3); WPRef keep(a, DMI::WRITE);
  MsgAddress to = a->address(); int n = 3; for (int i = 0; i < n; i++) { Message::Ref m(new Message(HIID(AtomicID(50)), (int)sx_range(nm("pri"), 0, 4095))); b->send(m, to); Message::Ref m2(new Message(HIID(AtomicID(51)), (int)sx_range(nm("pri"), 0, 4095))); b->send(m2, b->address()); }
  f.ac = ac; d.poll();
  CHECK(f.got[1] == n, "the other processes get all their messages"); CHECK(f.thrown, "the failing message was delivered"); if (!ac) { CHECK(f.got[0] == f.bad + 1, "a failed process gets no more messages"); CHECK(b->send(HIID(AtomicID(50)), to) == 0, "a failed process is no longer addressed"); d.poll(); CHECK(f.got[0] == f.bad + 1 && d.numWPs() == 1, "a failed process is detached"); CHECK(!a->isAttached() && !a->isRunning(), "a failed process is stopped"); sx_reach("detached"); } else CHECK(f.got[0] == n, "a process that catches failures keeps going");
  sx_reach("end");
}
struct Starve : Hooks { W *a, *b; int na, nb, p; Starve() : na(0), nb(0) {} int receive(W &w, Message::Ref &) override { if (w.k == 1) { nb++; return Message::ACCEPT; } if (++na < 14 && !nb) w.send(HIID(AtomicID(50)), w.address(), 0, p); return Message::ACCEPT; } };
ENTRY queue_starve() { // a busy process of higher priority cannot starve another one for ever
  Dispatcher &d = *boot(); bool sw = sx_choose("swap", 2); W *a = new W(sw ? CB : CA, 0), *b = new W(sw ? CA : CB, 1); d.attach(a, DMI::ANON); d.attach(b, DMI::ANON); d.start(); d.poll(); Starve s; s.a = a; s.b = b; int pb = (int)sx_range("pb", 0, 2000), diff = (int)sx_range("diff", 0, 6); s.p = pb + diff; H = &s;
  a->send(HIID(AtomicID(50)), a->address(), 0, s.p); a->send(HIID(AtomicID(51)), b->address(), 0, pb); d.poll(); CHECK(s.nb == 1, "the waiting message is delivered"); CHECK(s.na <= diff + 3, "a message gains priority while it waits"); sx_reach("end");
}
// ---- events: the real event thread runs here; everything else happens while it waits in select()
struct T2 { long s, u; bool operator<(const T2 &o) const { return s < o.s || (s == o.s && u < o.u); } bool operator<=(const T2 &o) const { return !(o < *this); } T2 operator+(const T2 &o) const { T2 r = {s + o.s, u + o.u}; if (r.u >= 1000000) { r.u -= 1000000; r.s++; } return r; } };
static T2 us; // the clock
static struct sigaction hnd[65]; static bool hset[65];
struct Step { virtual int wait(int n, fd_set *r, fd_set *w, fd_set *x, timeval *tv) = 0; }; static Step *step;
extern "C" {
int gettimeofday(timeval *t, void *) throw() { t->tv_sec = 1000 + us.s; t->tv_usec = us.u; return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *tv) { return step ? step->wait(n, r, w, x, tv) : 0; }
int sigaction(int s, const struct sigaction *n, struct sigaction *o) throw() { if (s < 1 || s > 64) return -1; if (o) *o = hnd[s]; if (n) hnd[s] = *n, hset[s] = true; return 0; }
}
struct Stop {};
static T2 tvus(timeval *tv) { CHECK(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "the wait time is well formed"); return T2{tv->tv_sec, tv->tv_usec}; }
static T2 anyt(const char *p, int max, int fix) { T2 r; r.s = sx_range(nm(p), 0, max); r.u = fix ? fix : sx_range(nm(p), 0, 999999); return r; }
struct TM { int w, id; T2 per, next; bool one, on; int due; };
struct TimeStep : Step, Hooks { Dispatcher &d; T2 until; bool timed; W *w[2]; TM t[4]; int nt, steps, maxsteps, spins, cancel, got[4]; bool oth;
  TimeStep(Dispatcher &d) : d(d), nt(0), steps(0), maxsteps(TIERED(2, 3)), spins(0), cancel(-1) { for (int i = 0; i < 4; i++) got[i] = 0; }
  void add() { TM &x = t[nt]; x.w = nt == 1 || (nt && SX_TIER) ? sx_choose(nm("wp"), 2) : 0; x.id = 60 + nt; x.per = anyt("per", 1, nt ? 300000 : 1); x.one = nt == 1 && !SX_TIER ? !t[0].one : nt == 2 && !SX_TIER ? true : sx_choose(nm("one"), 2); x.next = us + x.per; x.on = true; x.due = 0; int k = kicks; bool first = !timed || x.next < until; w[x.w]->addTimeout(Timestamp(x.per.s, x.per.u), AtomicID(x.id) | AtomicID(x.id), x.one ? EV_ONESHOT : EV_CONT); nt++; if (ev_fn && first) CHECK(kicks > k, "an earlier timeout interrupts the wait"); }
  int timeout(W &p, const HIID &id) override { int k = id[0].id() - 60; CHECK(id.size() == 2 && k >= 0 && k < nt && t[k].w == p.k, "a timeout is delivered to its process under its own name"); CHECK(t[k].due > 0, "a timeout is delivered only when it is due"); t[k].due--; if (k == cancel) { cancel = -1; t[k].on = false; t[k].due = 0; return Message::CANCEL; } return Message::ACCEPT; }
  int wait(int, fd_set *, fd_set *, fd_set *, timeval *tv) override {
    T2 z = {0, 0}; if (tv) z = tvus(tv); timed = tv; until = us + z; for (int i = 0; i < nt; i++) if (t[i].on) { CHECK(us < t[i].next, "a due timeout has fired before the wait"); CHECK(tv, "the wait ends when the next timeout is due"); CHECK(us + z <= t[i].next, "the wait ends when the next timeout is due"); }
    bool due = false; for (int i = 0; i < nt; i++) due |= t[i].due > 0; if (!due || sx_choose(nm("serve"), 2)) { cancel = t[0].due && sx_choose(nm("cancel"), 2) ? 0 : -1; d.poll(); for (int i = 0; i < nt; i++) CHECK(t[i].due == 0, "every due timeout is delivered"); cancel = -1; sx_reach("served"); }
    if (++steps > maxsteps) { d.poll(); for (int i = 0; i < nt; i++) CHECK(t[i].due == 0, "every due timeout is delivered"); throw Stop(); }
    int op = steps == 1 || SX_TIER ? sx_choose(nm("op"), 5) : 0; if (op == 1) { if (nt < 3) add(); } else if (op) { bool all = op == 3, any = false; int wp = op == 2 ? t[0].w : op == 3 ? 0 : 1 - t[0].w; HIID id; if (all) id = HIID(AidWildcard); else id = AtomicID(60) | AtomicID(60); for (int i = 0; i < nt; i++) if (t[i].on && t[i].w == wp && (all || i == 0)) { t[i].on = false; t[i].due = 0; any = true; } bool r = w[wp]->removeTimeout(id); CHECK(r == any, "removing a timeout reports whether there was one"); if (any) sx_reach("removed"); }
    us = us + anyt("dt", 2, steps == 1 || SX_TIER ? 0 : 700000); for (int i = 0; i < nt; i++) if (t[i].on && t[i].next <= us) { t[i].due++; sx_reach("fired"); if (t[i].one) t[i].on = false; else t[i].next = us + t[i].per; }
    return 0;
  } };
ENTRY ev_timeouts() {
  Dispatcher &d = *boot(); TimeStep s(d); for (int i = 0; i < 2; i++) { s.w[i] = new W(CA + i, i); d.attach(s.w[i], DMI::ANON); } H = &s; s.add(); s.add(); d.start(); step = &s; d.poll();
  try { ev_fn(ev_arg); } catch (Stop &) { sx_reach("end"); }
}
struct IM { int w, fd, fl, pend; bool one, on; };
struct InStep : Step, Hooks { Dispatcher &d; W *w[2]; IM t[4]; int nt, steps, maxsteps, spins, cancel, zero;
  InStep(Dispatcher &d) : d(d), nt(0), steps(0), maxsteps(TIERED(2, 3)), spins(0), cancel(0), zero(0) {}
  static int fl(const char *p) { int b = sx_choose(nm(p), TIERED(2, 3)) * TIERED(2, 1); return b == 0 ? EV_FDREAD : b == 1 ? EV_FDWRITE : EV_FDREAD | EV_FDEXCEPTION; }
  void add(int wp, int fd) { int f = fl("fl"); bool one = sx_choose(nm("one"), 2); int i = 0, k = kicks; for (; i < nt; i++) if (t[i].w == wp && t[i].fd == fd && t[i].on) break; if (i == nt) { nt++; t[i].w = wp; t[i].fd = fd; t[i].fl = 0; t[i].pend = 0; t[i].on = true; } t[i].fl |= f; t[i].one = one; w[wp]->addInput(fd, f | (one ? EV_ONESHOT : EV_CONT)); if (ev_fn) CHECK(kicks > k, "a new input interrupts the wait"); }
  int input(W &p, int fd, int flags) override { bool f = false; for (int i = 0; i < nt; i++) if (!f && t[i].w == p.k && t[i].fd == fd && t[i].pend) { f = true; CHECK(flags == t[i].pend, "an input event reports what was seen on the descriptor"); t[i].pend = 0; if (cancel) for (int j = 0; j < nt; j++) if (t[j].on && t[j].w == p.k && t[j].fd == fd) { t[j].fl &= ~flags; t[j].pend &= ~flags; if (!t[j].fl) t[j].on = false; } } CHECK(f, "an input event is delivered once, to the process that asked for it"); if (cancel) { sx_reach("cancelled"); return Message::CANCEL; } return Message::ACCEPT; }
  void served() { for (int i = 0; i < nt; i++) CHECK(t[i].pend == 0, "every input event is delivered"); }
  int wait(int n, fd_set *r, fd_set *wr, fd_set *x, timeval *tv) override {
    if (tv && !tv->tv_sec && !tv->tv_usec && ++zero < 3) { if (r) FD_ZERO(r); if (wr) FD_ZERO(wr); if (x) FD_ZERO(x); return 0; } // just looking
    bool any = false; for (int fd = 3; fd < 6; fd++) { int f = 0; for (int i = 0; i < nt; i++) if (t[i].on && t[i].fd == fd) f |= t[i].fl; any |= f != 0; int g = 0; if (n > fd) { if (r && FD_ISSET(fd, r)) g |= EV_FDREAD; if (wr && FD_ISSET(fd, wr)) g |= EV_FDWRITE; if (x && FD_ISSET(fd, x)) g |= EV_FDEXCEPTION; } CHECK(f == g, "exactly the descriptors and conditions asked for are watched"); }
    CHECK(!tv, "with no timeouts the wait is unlimited"); bool pend = false; for (int i = 0; i < nt; i++) pend |= t[i].pend != 0;
    if (steps && pend && sx_choose(nm("serve"), 2)) { cancel = sx_choose(nm("cancel"), 2); d.poll(); served(); cancel = 0; sx_reach("served"); }
    if (++steps > maxsteps) { d.poll(); served(); throw Stop(); }
    int op = steps == 1 || SX_TIER ? sx_choose(nm("op"), 6) : 0; if (op == 1) add(1, 3); else if (op == 2 && SX_TIER) add(0, 4); else if (op == 5) { bool was = false; if (t[0].on || t[0].pend) { was = true; } bool res = w[0]->removeInput(3, EV_FDREAD); if (t[0].on) { CHECK(res, "removing an input reports that there was one"); t[0].fl &= ~EV_FDREAD; t[0].pend &= ~EV_FDREAD; if (!t[0].fl) t[0].on = false; sx_reach("removed"); } (void)was; }
    else if (op == 3) { bool was = false; for (int i = 0; i < nt; i++) if (t[i].w == 0 && t[i].on) { was = true; t[i].on = false; t[i].pend = 0; } CHECK(w[0]->removeInput(-1) == was, "removing inputs reports whether there were any"); if (was) sx_reach("removed"); }
    else if (op == 4) { bool was = false; for (int i = 0; i < nt; i++) if (t[i].w == 1 && t[i].on && t[i].fd == 3) { was = true; t[i].on = false; t[i].pend = 0; } CHECK(w[1]->removeInput(3) == was, "removing inputs reports whether there were any"); }
    // what is seen on the descriptors that were watched when the wait began
    int cnt = 0; bool sig = op != 0 && sx_choose(nm("eintr"), 2); if (!any) return 0; CHECK(r && wr && x, "watched descriptors are passed on"); fd_set wr0 = *r, ww0 = *wr, wx0 = *x; FD_ZERO(r); FD_ZERO(wr); FD_ZERO(x); if (sig) { errno = EINTR; return -1; }
    for (int fd = 3; fd < 5; fd++) { if (fd == 4 && nt < 2) continue; int g = 0; if (FD_ISSET(fd, &wr0) && sx_range(nm("r"), 0, 1)) { FD_SET(fd, r); cnt++; g |= EV_FDREAD; } if (FD_ISSET(fd, &ww0) && sx_range(nm("w"), 0, 1)) { FD_SET(fd, wr); cnt++; g |= EV_FDWRITE; } if (FD_ISSET(fd, &wx0) && sx_range(nm("x"), 0, 1)) { FD_SET(fd, x); cnt++; g |= EV_FDEXCEPTION; }
      for (int i = 0; i < nt; i++) if (t[i].on && t[i].fd == fd && (g & t[i].fl)) { t[i].pend |= g & t[i].fl; sx_reach("seen"); if (t[i].one) t[i].on = false; } }
    return cnt;
  } };
#include <errno.h>
ENTRY ev_inputs() {
  Dispatcher &d = *boot(); InStep s(d); for (int i = 0; i < 2; i++) { s.w[i] = new W(CA + i, i); d.attach(s.w[i], DMI::ANON); } H = &s; s.add(0, 3); if (sx_choose("two", 2)) s.add(0, 4); d.start(); step = &s; d.poll();
  try { ev_fn(ev_arg); } catch (Stop &) { sx_reach("end"); }
}
struct SM { int w, sig, fl, pend; bool on; };
struct SigStep : Step, Hooks { Dispatcher &d; W *w[2]; SM t[4]; int nt, steps, maxsteps; bool cancel;
  SigStep(Dispatcher &d) : d(d), nt(0), steps(0), maxsteps(TIERED(2, 3)), cancel(false) {}
  void add(int wp, int sig) { for (int i = 0; i < nt; i++) if (t[i].w == wp && t[i].sig == sig && t[i].on) { w[wp]->addSignal(sig, t[i].fl); return; } SM &x = t[nt++]; x.w = wp; x.sig = sig; int f = sx_choose(nm("fl"), 4); x.fl = f == 0 ? EV_CONT : f == 1 ? EV_ONESHOT : f == 2 ? EV_DISCRETE : EV_IGNORE; x.pend = 0; x.on = true; w[wp]->addSignal(sig, x.fl); CHECK(sig <= 0 || hset[sig], "the signal is caught"); }
  int signal(W &p, int sig) override { bool f = false; for (int i = 0; i < nt; i++) if (t[i].w == p.k && t[i].sig == sig && t[i].pend) { f = true; t[i].pend--; if (cancel) for (int j = 0; j < nt; j++) if (t[j].w == p.k && t[j].sig == sig) { t[j].on = false; t[j].pend = 0; } break; } CHECK(f, "a signal is delivered to the process that asked for it, once"); return cancel ? Message::CANCEL : Message::ACCEPT; }
  void served() { for (int i = 0; i < nt; i++) CHECK(t[i].pend == 0, "every signal event is delivered"); }
  void raise(int sig) { if (!hnd[sig].sa_sigaction) return; hnd[sig].sa_sigaction(sig, 0, 0); for (int i = 0; i < nt; i++) if (t[i].on && t[i].sig == sig) { if (!(t[i].fl & EV_IGNORE)) { if (t[i].fl & EV_DISCRETE) t[i].pend++; else t[i].pend = 1; sx_reach("raised"); } if (t[i].fl & EV_ONESHOT) t[i].on = false; } }
  int wait(int, fd_set *, fd_set *, fd_set *, timeval *) override {
    bool pend = false; for (int i = 0; i < nt; i++) pend |= t[i].pend != 0;
    if (!pend || sx_choose(nm("serve"), 2)) { cancel = pend && sx_choose(nm("cancel"), 2); d.poll(); served(); cancel = false; if (pend) sx_reach("served"); }
    if (++steps > maxsteps) { d.poll(); served(); throw Stop(); }
    int op = sx_choose(nm("op"), 6); if (op == 1) { if (nt < 4) add(1, 12); } else if (op == 2) { if (nt < 4) add(0, 15); } else if (op == 3 || op == 4 || op == 5) { int wp = op == 5, sig = op == 4 ? -1 : 12; bool was = false; for (int i = 0; i < nt; i++) if (t[i].w == wp && (sig < 0 || t[i].sig == sig)) { was |= t[i].on; t[i].on = false; t[i].pend = 0; } CHECK(w[wp]->removeSignal(sig) == was, "removing a signal reports whether there was one"); if (was) sx_reach("removed"); }
    int k = sx_choose(nm("raise"), 4); if (k & 1) raise(12); if (k & 2) raise(15); errno = EINTR; return -1;
  } };
static void orig(int) {}
ENTRY ev_signals() {
  hnd[12].sa_handler = orig; hnd[15].sa_handler = orig; Dispatcher &d = *boot(); SigStep s(d); for (int i = 0; i < 2; i++) { s.w[i] = new W(CA + i, i); d.attach(s.w[i], DMI::ANON); } H = &s; s.add(0, 12); d.start(); step = &s; d.poll();
  try { ev_fn(ev_arg); } catch (Stop &) { d.stop(); for (int i = 0; i < 65; i++) if (i == 12 || i == 15) CHECK(hnd[i].sa_handler == orig, "stopping gives signals back to their previous handlers"); sx_reach("end"); }
}
