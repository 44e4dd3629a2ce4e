#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_set>
#include <chrono>
#include <unistd.h>
using std::vector; using std::string;

vector<VarInfo> g_vars; vector<string> g_ufs; bool g_fpUF = false; uint64_t g_nExpr = 0;
Solver g_solver;
static uint32_t g_stamp = 0;

// ---------- interned var sets
typedef vector<uint32_t> VS;
static std::set<VS> g_vs;
static const VS *internVS(VS &&v) { return &*g_vs.insert(std::move(v)).first; }
static const VS *vsEmpty() { static const VS *e = internVS({}); return e; }
static const VS *vsUnion(const VS *a, const VS *b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  VS r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); return internVS(std::move(r));
}

// ---------- hash-consing
struct KeyHash { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 1315423911ull + e->width; auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix(e->c); for (int i = 0; i < 3; i++) mix(e->a[i] ? e->a[i]->id + 1 : 0); return h; } };
struct KeyEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->width == y->width && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2]; } };
static std::unordered_set<const Expr *, KeyHash, KeyEq> &table() { static std::unordered_set<const Expr *, KeyHash, KeyEq> t; return t; }

static void range(Expr *e) {
  unsigned w = e->width; uint64_t M = maskw(w); e->umin = 0; e->umax = M;
  E a = e->a[0], b = e->a[1];
  switch (e->op) {
  case O_CONST: e->umin = e->umax = e->c; break;
  case O_VAR: { auto &v = g_vars[e->c]; if (v.hasRange && v.lo >= 0) { e->umin = v.lo; e->umax = v.hi; } break; }
  case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
  case O_SEXT: if (a->umax <= maskw(a->width - 1)) { e->umin = a->umin; e->umax = a->umax; } break;
  case O_AND: e->umax = std::min(a->umax, b->umax); break;
  case O_OR: case O_XOR: { uint64_t m = a->umax | b->umax; int k = m ? 64 - __builtin_clzll(m) : 0; e->umax = std::min(M, maskw(k ? k : 1)); if (!m) e->umax = 0; if (e->op == O_OR) e->umin = std::max(a->umin, b->umin); break; }
  case O_ADD: { unsigned __int128 s = (unsigned __int128)a->umax + b->umax; if (s <= M) { e->umin = a->umin + b->umin; e->umax = (uint64_t)s; }
      else if (b->op == O_CONST && (b->c >> (w - 1))) { uint64_t k = (0 - b->c) & M; if (a->umin >= k) { e->umin = a->umin - k; e->umax = a->umax - k; } } break; }
  case O_MUL: { unsigned __int128 s = (unsigned __int128)a->umax * b->umax; if (s <= M) { e->umin = a->umin * b->umin; e->umax = (uint64_t)s; } break; }
  case O_UDIV: if (b->umin > 0) { e->umax = a->umax / b->umin; e->umin = a->umin / b->umax; } break;
  case O_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
  case O_SDIV: if (a->umax <= maskw(w - 1) && b->umax <= maskw(w - 1) && b->umin > 0) { e->umax = a->umax / b->umin; e->umin = a->umin / b->umax; } break;
  case O_SREM: if (a->umax <= maskw(w - 1) && b->umax <= maskw(w - 1) && b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
  case O_LSHR: if (b->op == O_CONST && b->c < w) { e->umin = a->umin >> b->c; e->umax = a->umax >> b->c; } break;
  case O_SHL: if (b->op == O_CONST && b->c < w) { unsigned __int128 s = (unsigned __int128)a->umax << b->c; if (s <= M) { e->umin = a->umin << b->c; e->umax = (uint64_t)s; } } break;
  case O_CONCAT: e->umin = (a->umin << b->width) | (a->umin == a->umax ? b->umin : 0); e->umax = (a->umax << b->width) | maskw(b->width); if (a->umin == a->umax) e->umax = (a->umax << b->width) | b->umax; break;
  case O_EXTRACT: if (e->c == 0 && a->umax <= M) { e->umin = a->umin; e->umax = a->umax; } break;
  case O_ITE: e->umin = std::min(b->umin, e->a[2]->umin); e->umax = std::max(b->umax, e->a[2]->umax); break;
  default: break;
  }
}
static E make(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr k; k.op = op; k.width = w; k.c = c; k.a[0] = a; k.a[1] = b; k.a[2] = d;
  auto &t = table(); auto it = t.find(&k); if (it != t.end()) return *it;
  Expr *e = new Expr(k); e->id = g_nExpr++; e->zv = e->zb = nullptr; e->ev = 0; e->evStamp = 0;
  e->hasUF = op == O_UF; e->hasFP = (op >= O_FADD && op <= O_DY);
  if (g_fpUF && op >= O_FADD && op <= O_FREM) e->hasUF = true;
  const VS *vs = vsEmpty(); if (op == O_VAR) vs = internVS({(uint32_t)c});
  for (int i = 0; i < 3; i++) if (e->a[i]) { e->hasUF |= e->a[i]->hasUF; e->hasFP |= e->a[i]->hasFP; vs = vsUnion(vs, e->a[i]->vars); }
  e->vars = vs; range(e);
  if (e->umin == e->umax && op != O_CONST) { uint64_t v = e->umin; E r = mkConst(w, v); delete e; return r; }
  t.insert(e); return e;
}
E mkConst(unsigned w, uint64_t v) { return make(O_CONST, w, v & maskw(w)); }
E mkVar(const string &n, unsigned w, bool hr, int64_t lo, int64_t hi) {
  g_vars.push_back({n, w, hr, lo, hi}); return make(O_VAR, w, g_vars.size() - 1);
}
static inline bool isC(E e) { return e->op == O_CONST; }
static inline bool isC(E e, uint64_t v) { return e->op == O_CONST && e->c == v; }
static inline E T() { return mkConst(1, 1); }
static inline E F() { return mkConst(1, 0); }
static inline E B(bool b) { return mkConst(1, b); }

static uint64_t foldBin(Op op, unsigned w, uint64_t x, uint64_t y) {
  uint64_t m = maskw(w); int64_t sx = sext64(x, w), sy = sext64(y, w);
  switch (op) {
  case O_ADD: return (x + y) & m; case O_MUL: return (x * y) & m;
  case O_UDIV: return y ? x / y : m; case O_UREM: return y ? x % y : x;
  case O_SDIV: if (!y) return sx < 0 ? 1 : m; if (sy == -1) return (0 - x) & m; return (uint64_t)(sx / sy) & m;
  case O_SREM: if (!y) return x; if (sy == -1) return 0; return (uint64_t)(sx % sy) & m;
  case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
  case O_SHL: return y >= w ? 0 : (x << y) & m; case O_LSHR: return y >= w ? 0 : x >> y;
  case O_ASHR: return (y >= w ? (sx < 0 ? m : 0) : (uint64_t)(sx >> y)) & m;
  case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y; case O_SLT: return sx < sy; case O_SLE: return sx <= sy;
  default: abort();
  }
}
E mkAdd(E a, E b) {
  unsigned w = a->width;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) { if (isC(a)) return mkConst(w, a->c + b->c); if (b->c == 0) return a;
    if (a->op == O_ADD && isC(a->a[1])) return mkAdd(a->a[0], mkConst(w, a->a[1]->c + b->c));
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkAdd(a->a[1], b), mkAdd(a->a[2], b)); }
  else {
    if (a->op == O_ADD && isC(a->a[1])) return mkAdd(mkAdd(a->a[0], b), a->a[1]);
    if (b->op == O_ADD && isC(b->a[1])) return mkAdd(mkAdd(a, b->a[0]), b->a[1]);
    // x + (-1*x) = 0
    if (a->op == O_MUL && isC(a->a[1], maskw(w)) && a->a[0] == b) return mkConst(w, 0);
    if (b->op == O_MUL && isC(b->a[1], maskw(w)) && b->a[0] == a) return mkConst(w, 0);
    // (x + y) - y
    if (b->op == O_MUL && isC(b->a[1], maskw(w)) && a->op == O_ADD) { if (a->a[0] == b->a[0]) return a->a[1]; if (a->a[1] == b->a[0]) return a->a[0]; }
    if (a->id > b->id) std::swap(a, b);
  }
  if (w == 1) return mkXor(a, b);
  return make(O_ADD, w, 0, a, b);
}
E mkSub(E a, E b) { if (a == b) return mkConst(a->width, 0); if (isC(b)) return mkAdd(a, mkConst(a->width, 0 - b->c)); return mkAdd(a, mkMul(b, mkConst(a->width, ~0ull))); }
E mkMul(E a, E b) {
  unsigned w = a->width; if (isC(a)) std::swap(a, b);
  if (isC(b)) { if (isC(a)) return mkConst(w, a->c * b->c); if (b->c == 0) return b; if (b->c == 1) return a;
    if (a->op == O_MUL && isC(a->a[1])) return mkMul(a->a[0], mkConst(w, a->a[1]->c * b->c));
    if (a->op == O_ADD && isC(a->a[1])) return mkAdd(mkMul(a->a[0], b), mkConst(w, a->a[1]->c * b->c));
    if (a->op == O_ADD && b->c == maskw(w)) return mkAdd(mkMul(a->a[0], b), mkMul(a->a[1], b)); }
  else if (a->id > b->id) std::swap(a, b);
  if (w == 1) return mkAnd(a, b);
  return make(O_MUL, w, 0, a, b);
}
E mkAnd(E a, E b) {
  unsigned w = a->width; if (isC(a)) std::swap(a, b); if (a == b) return a;
  if (isC(b)) { if (isC(a)) return mkConst(w, a->c & b->c); if (b->c == 0) return b; if (b->c == maskw(w)) return a;
    if (a->op == O_AND && isC(a->a[1])) return mkAnd(a->a[0], mkConst(w, a->a[1]->c & b->c));
    // low mask -> zext(extract)
    uint64_t m = b->c; if ((m & (m + 1)) == 0) { unsigned k = __builtin_popcountll(m); if (a->umax <= m) return a; return mkZExt(mkExtract(a, 0, k), w); }
    if (a->op == O_CONCAT) return mkConcat(mkAnd(a->a[0], mkConst(a->a[0]->width, b->c >> a->a[1]->width)), mkAnd(a->a[1], mkConst(a->a[1]->width, b->c)));
    if (a->op == O_ZEXT && a->a[0]->width > 0) return mkZExt(mkAnd(a->a[0], mkConst(a->a[0]->width, b->c)), w);
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkAnd(a->a[1], b), mkAnd(a->a[2], b)); }
  else { if (w == 1) { if (a == mkNot(b)) return F();
      if (a->op == O_AND && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == O_AND && (b->a[0] == a || b->a[1] == a)) return b; }
    if (a->id > b->id) std::swap(a, b); }
  return make(O_AND, w, 0, a, b);
}
E mkOr(E a, E b) {
  unsigned w = a->width; if (isC(a)) std::swap(a, b); if (a == b) return a;
  if (isC(b)) { if (isC(a)) return mkConst(w, a->c | b->c); if (b->c == 0) return a; if (b->c == maskw(w)) return b;
    if (a->op == O_OR && isC(a->a[1])) return mkOr(a->a[0], mkConst(w, a->a[1]->c | b->c)); }
  else {
    if (w == 1) { if (a == mkNot(b)) return T(); if (a->op == O_OR && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == O_OR && (b->a[0] == a || b->a[1] == a)) return b; }
    // disjoint: concat(x, 0_k) | zext(y)  with y width<=k
    for (int sw = 0; sw < 2; sw++) { E x = sw ? b : a, y = sw ? a : b;
      if (x->op == O_CONCAT && isC(x->a[1], 0) && y->umax <= maskw(x->a[1]->width)) return mkConcat(x->a[0], mkExtract(y, 0, x->a[1]->width)); 
      if (x->op == O_ZEXT && x->a[0]->op == O_CONCAT && isC(x->a[0]->a[1], 0) && y->umax <= maskw(x->a[0]->a[1]->width)) return mkZExt(mkConcat(x->a[0]->a[0], mkExtract(y, 0, x->a[0]->a[1]->width)), w); }
    if (a->id > b->id) std::swap(a, b); }
  return make(O_OR, w, 0, a, b);
}
E mkXor(E a, E b) {
  unsigned w = a->width; if (isC(a)) std::swap(a, b); if (a == b) return mkConst(w, 0);
  if (isC(b)) { if (isC(a)) return mkConst(w, a->c ^ b->c); if (b->c == 0) return a;
    if (a->op == O_XOR && isC(a->a[1])) return mkXor(a->a[0], mkConst(w, a->a[1]->c ^ b->c));
    if (w == 1) { // not: push into comparisons
      if (a->op == O_ULT) return mkCmp(O_ULE, a->a[1], a->a[0]); if (a->op == O_ULE) return mkCmp(O_ULT, a->a[1], a->a[0]);
      if (a->op == O_SLT) return mkCmp(O_SLE, a->a[1], a->a[0]); if (a->op == O_SLE) return mkCmp(O_SLT, a->a[1], a->a[0]);
      if (a->op == O_ITE) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2])); } }
  else { if (w == 1) { if (a->op == O_XOR && isC(a->a[1], 1)) return mkNot(mkXor(a->a[0], b)); if (b->op == O_XOR && isC(b->a[1], 1)) return mkNot(mkXor(a, b->a[0])); }
    if (a->id > b->id) std::swap(a, b); }
  return make(O_XOR, w, 0, a, b);
}
E mkNot(E a) { return mkXor(a, mkConst(a->width, ~0ull)); }
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a; if (isC(a)) return mkConst(w, a->c);
  if (a->op == O_ZEXT) return mkZExt(a->a[0], w);
  if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  if (a->op == O_CONCAT && isC(a->a[0], 0)) return mkZExt(a->a[1], w);
  return make(O_ZEXT, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a; if (isC(a)) return mkConst(w, (uint64_t)sext64(a->c, a->width));
  if (a->op == O_SEXT) return mkSExt(a->a[0], w);
  if (a->umax <= maskw(a->width - 1)) return mkZExt(a, w);
  if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return make(O_SEXT, w, 0, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (isC(a)) return mkConst(w, a->c >> off);
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->a[0], off + a->c, w);
  case O_CONCAT: { unsigned lw = a->a[1]->width; if (off >= lw) return mkExtract(a->a[0], off - lw, w); if (off + w <= lw) return mkExtract(a->a[1], off, w);
      return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off)); }
  case O_ZEXT: { unsigned iw = a->a[0]->width; if (off >= iw) return mkConst(w, 0); if (off + w <= iw) return mkExtract(a->a[0], off, w);
      return mkZExt(mkExtract(a->a[0], off, iw - off), w); }
  case O_SEXT: { unsigned iw = a->a[0]->width; if (off + w <= iw) return mkExtract(a->a[0], off, w); if (off < iw) return mkSExt(mkExtract(a->a[0], off, iw - off), w);
      { E s = mkExtract(a->a[0], iw - 1, 1); return mkSExt(s, w); } }
  case O_AND: case O_OR: case O_XOR: return mkBin(a->op, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
  case O_ADD: case O_MUL: if (off == 0) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  case O_ITE: if (isC(a->a[1]) || isC(a->a[2]) || w <= 8) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w)); break;
  default: break;
  }
  if (off + 0u < 64 && (a->umax >> off) == 0) return mkConst(w, 0);
  return make(O_EXTRACT, w, off, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->c << lo->width) | lo->c);
  if (isC(hi, 0)) return mkZExt(lo, w);
  auto topIs = [](E e, E &src, unsigned &endOff) { // e's source/ending bit
    if (e->op == O_EXTRACT) { src = e->a[0]; endOff = e->c + e->width; return true; } src = e; endOff = e->width; return true; };
  // adjacent extracts
  { E s1, s2; unsigned o1, e2; if (hi->op == O_EXTRACT) { s1 = hi->a[0]; o1 = hi->c; topIs(lo, s2, e2); if (s1 == s2 && o1 == e2) { unsigned o2 = lo->op == O_EXTRACT ? lo->c : 0; return mkExtract(s1, o2, w); } 
      if (lo->op == O_CONCAT) { topIs(lo->a[0], s2, e2); if (s1 == s2 && o1 == e2) return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]); } } }
  // zext(extract)/sext top pieces
  if (hi->op == O_CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo)); // right-nest
  if (isC(hi) && lo->op == O_CONCAT && isC(lo->a[0])) return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
  if (hi->op == O_ZEXT) return mkZExt(mkConcat(hi->a[0], lo), w);
  return make(O_CONCAT, w, 0, hi, lo);
}
static bool dyAlign(E a, E b, E &x, E &y, unsigned &sc, unsigned &bx, unsigned &by);
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f; if (t == f) return t;
  unsigned w = t->width;
  if (c->op == O_XOR && isC(c->a[1], 1)) return mkIte(c->a[0], f, t);
  if (w == 1) { if (isC(t, 1)) return mkOr(c, f); if (isC(t, 0)) return mkAnd(mkNot(c), f); if (isC(f, 0)) return mkAnd(c, t); if (isC(f, 1)) return mkOr(mkNot(c), t); }
  if (t->op == O_ITE && t->a[0] == c) t = t->a[1];
  if (f->op == O_ITE && f->a[0] == c) f = f->a[2];
  if (t == f) return t;
  if (f->op == O_ITE && f->a[1] == t) return mkIte(mkOr(c, f->a[0]), t, f->a[2]);
  if (t->op == O_DY && f->op == O_DY && (t->c & 0xff) == (f->c & 0xff)) return mkDy(mkIte(c, t->a[0], f->a[0]), t->c & 0xff, std::max(t->c >> 8, f->c >> 8));
  if (t->op == O_DY || f->op == O_DY) { E x, y; unsigned sc, bx, by; if (dyAlign(t, f, x, y, sc, bx, by)) return mkDy(mkIte(c, x, y), sc, std::max(bx, by)); }
  return make(O_ITE, w, 0, c, t, f);
}
static bool dyOf(E e, E &arg, unsigned &sc, unsigned &bits);
static E dyCmp(Op op, E a, E b, bool &ok);
E mkEq(E a, E b) {
  if (a == b) return T(); if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return B(a->c == b->c);
  if (a->umax < b->umin || b->umax < a->umin) return F();
  unsigned w = a->width;
  if (a->op == O_DY || b->op == O_DY) { bool ok; E r = dyCmp(O_EQ, a, b, ok); if (ok) return r; }
  if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (isC(b)) {
    uint64_t k = b->c;
    switch (a->op) {
    case O_ZEXT: if (k > maskw(a->a[0]->width)) return F(); return mkEq(a->a[0], mkConst(a->a[0]->width, k));
    case O_SEXT: if ((uint64_t)sext64(k & maskw(a->a[0]->width), a->a[0]->width) != (uint64_t)sext64(k, w)) return F(); return mkEq(a->a[0], mkConst(a->a[0]->width, k));
    case O_ADD: if (isC(a->a[1])) return mkEq(a->a[0], mkConst(w, k - a->a[1]->c)); break;
    case O_XOR: if (isC(a->a[1])) return mkEq(a->a[0], mkConst(w, k ^ a->a[1]->c)); break;
    case O_CONCAT: return mkAnd(mkEq(a->a[0], mkConst(a->a[0]->width, k >> a->a[1]->width)), mkEq(a->a[1], mkConst(a->a[1]->width, k)));
    case O_ITE: if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b)); break;
    case O_MUL: if (isC(a->a[1]) && (a->a[1]->c & 1)) { uint64_t m = a->a[1]->c, inv = m; for (int i = 0; i < 6; i++) inv *= 2 - m * inv; return mkEq(a->a[0], mkConst(w, k * inv)); } break;
    default: break;
    }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT) { E x = a->a[0], y = b->a[0]; if (x->width == y->width) return mkEq(x, y); if (x->width < y->width) return mkEq(mkZExt(x, y->width), y); return mkEq(x, mkZExt(y, x->width)); }
    if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->width == b->a[0]->width) return mkEq(a->a[0], b->a[0]);
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->a[0]->width == b->a[0]->width) return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
    if (a->op == O_ADD && b->op == O_ADD) { if (a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]); if (isC(a->a[1]) && isC(b->a[1])) return mkEq(a->a[0], mkAdd(b->a[0], mkConst(w, b->a[1]->c - a->a[1]->c))); if (a->a[0] == b->a[0]) return mkEq(a->a[1], b->a[1]); }
    if (a->op == O_ADD && isC(a->a[1]) && a->a[0] == b) return F();
    if (b->op == O_ADD && isC(b->a[1]) && b->a[0] == a) return F();
    if (a->id > b->id) std::swap(a, b);
  }
  return make(O_EQ, 1, 0, a, b);
}
static void srange(E e, int64_t &lo, int64_t &hi) {
  unsigned w = e->width;
  if (e->umax <= maskw(w - 1)) { lo = e->umin; hi = e->umax; return; }
  if (w < 64 || true) { if (e->umin > maskw(w - 1)) { lo = sext64(e->umin, w); hi = sext64(e->umax, w); return; } }
  lo = sext64(1ull << (w - 1), w); hi = (int64_t)maskw(w - 1);
  if (e->op == O_SEXT) srange(e->a[0], lo, hi);
  else if (e->op == O_VAR && g_vars[e->c].hasRange) { lo = g_vars[e->c].lo; hi = g_vars[e->c].hi; }
  else if (e->op == O_ADD) { int64_t l1, h1, l2, h2; srange(e->a[0], l1, h1); srange(e->a[1], l2, h2);
    __int128 l = (__int128)l1 + l2, h = (__int128)h1 + h2; if (l >= lo && h <= hi) { lo = (int64_t)l; hi = (int64_t)h; } }
  else if (e->op == O_MUL && isC(e->a[1])) { int64_t l1, h1; srange(e->a[0], l1, h1); int64_t k = sext64(e->a[1]->c, w);
    __int128 x = (__int128)l1 * k, y = (__int128)h1 * k; if (x > y) std::swap(x, y); if (x >= lo && y <= hi) { lo = (int64_t)x; hi = (int64_t)y; } }
  else if (e->op == O_MUL) { int64_t l1, h1, l2, h2; srange(e->a[0], l1, h1); srange(e->a[1], l2, h2); __int128 p[4] = {(__int128)l1 * l2, (__int128)l1 * h2, (__int128)h1 * l2, (__int128)h1 * h2}, l = p[0], h = p[0];
    for (auto q : p) { if (q < l) l = q; if (q > h) h = q; } if (l >= lo && h <= hi) { if (e->a[0] == e->a[1] && l < 0) l = 0; lo = (int64_t)l; hi = (int64_t)h; } }
  else if (e->op == O_ITE) { int64_t l1, h1, l2, h2; srange(e->a[1], l1, h1); srange(e->a[2], l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); }
}
E mkCmp(Op op, E a, E b) {
  if (op == O_EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) return B(foldBin(op, a->width, a->c, b->c));
  if (a == b) return B(op == O_ULE || op == O_SLE);
  unsigned w = a->width;
  if (op == O_ULT || op == O_ULE) {
    if (op == O_ULT) { if (a->umax < b->umin) return T(); if (a->umin >= b->umax) return F(); if (isC(b, 1)) return mkEq(a, mkConst(w, 0)); }
    else { if (a->umax <= b->umin) return T(); if (a->umin > b->umax) return F(); if (isC(b, 0)) return mkEq(a, b); }
    if (w == 1) return op == O_ULT ? mkAnd(mkNot(a), b) : mkOr(mkNot(a), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->width == b->a[0]->width) return mkCmp(op, a->a[0], b->a[0]);
    if (a->op == O_ZEXT && isC(b) && b->c <= maskw(a->a[0]->width)) return mkCmp(op, a->a[0], mkConst(a->a[0]->width, b->c));
    if (b->op == O_ZEXT && isC(a) && a->c <= maskw(b->a[0]->width)) return mkCmp(op, mkConst(b->a[0]->width, a->c), b->a[0]);
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]) && isC(b)) return mkIte(a->a[0], mkCmp(op, a->a[1], b), mkCmp(op, a->a[2], b));
  } else {
    int64_t l1, h1, l2, h2; srange(a, l1, h1); srange(b, l2, h2);
    if (op == O_SLT) { if (h1 < l2) return T(); if (l1 >= h2) return F(); } else { if (h1 <= l2) return T(); if (l1 > h2) return F(); }
    if (l1 >= 0 && l2 >= 0) return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->width == b->a[0]->width) return mkCmp(op, a->a[0], b->a[0]);
    if (a->op == O_SEXT && isC(b)) { unsigned iw = a->a[0]->width; if (sext64(b->c & maskw(iw), iw) == sext64(b->c, w)) return mkCmp(op, a->a[0], mkConst(iw, b->c)); }
    if (b->op == O_SEXT && isC(a)) { unsigned iw = b->a[0]->width; if (sext64(a->c & maskw(iw), iw) == sext64(a->c, w)) return mkCmp(op, mkConst(iw, a->c), b->a[0]); }
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]) && isC(b)) return mkIte(a->a[0], mkCmp(op, a->a[1], b), mkCmp(op, a->a[2], b));
    if (w == 1) return op == O_SLT ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
  }
  return make(op, 1, 0, a, b);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  switch (op) {
  case O_ADD: return mkAdd(a, b); case O_MUL: return mkMul(a, b); case O_AND: return mkAnd(a, b); case O_OR: return mkOr(a, b); case O_XOR: return mkXor(a, b);
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: return mkCmp(op, a, b);
  default: break;
  }
  if (isC(a) && isC(b)) return mkConst(w, foldBin(op, w, a->c, b->c));
  switch (op) {
  case O_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0); return mkConcat(mkExtract(a, 0, w - b->c), mkConst(b->c, 0)); } break;
  case O_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0); return mkZExt(mkExtract(a, b->c, w - b->c), w); } break;
  case O_ASHR: if (isC(b)) { if (b->c == 0) return a; uint64_t k = b->c >= w ? w - 1 : b->c; return mkSExt(mkExtract(a, k, w - k), w); } break;
  case O_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) return mkBin(O_LSHR, a, mkConst(w, __builtin_ctzll(b->c))); } break;
  case O_UREM: if (isC(b)) { if (b->c && !(b->c & (b->c - 1))) return mkAnd(a, mkConst(w, b->c - 1)); if (a->umax < b->c) return a; } break;
  case O_SDIV: if (isC(b, 1)) return a; if (isC(b) && (int64_t)sext64(b->c, w) > 0) { int64_t l, h; srange(a, l, h); if (l >= 0) return mkBin(O_UDIV, a, b); } break;
  case O_SREM: if (isC(b) && (int64_t)sext64(b->c, w) > 0) { int64_t l, h; srange(a, l, h); if (l >= 0) return mkBin(O_UREM, a, b); } break;
  default: break;
  }
  return make(op, w, 0, a, b);
}
// ---------------------------------------------------------------- FP
static double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float b2f(uint64_t b) { uint32_t u = (uint32_t)b; float d; memcpy(&d, &u, 4); return d; }
static uint64_t f2b(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
uint64_t hostFBin(Op op, unsigned w, uint64_t x, uint64_t y) {
  if (w == 64) { double a = b2d(x), b = b2d(y); switch (op) { case O_FADD: return d2b(a + b); case O_FSUB: return d2b(a - b); case O_FMUL: return d2b(a * b); case O_FDIV: return d2b(a / b); case O_FREM: return d2b(fmod(a, b));
    case O_FLT: return a < b; case O_FLE: return a <= b; case O_FEQ: return a == b; case O_FUNO: return std::isnan(a) || std::isnan(b); default: abort(); } }
  float a = b2f(x), b = b2f(y); switch (op) { case O_FADD: return f2b(a + b); case O_FSUB: return f2b(a - b); case O_FMUL: return f2b(a * b); case O_FDIV: return f2b(a / b); case O_FREM: return f2b(fmodf(a, b));
    case O_FLT: return a < b; case O_FLE: return a <= b; case O_FEQ: return a == b; case O_FUNO: return std::isnan(a) || std::isnan(b); default: abort(); }
}
static uint64_t hostCast(Op op, unsigned sw, unsigned dw, uint64_t x, uint64_t aux) {
  switch (op) {
  case O_SITOFP: return dw == 64 ? d2b((double)sext64(x, sw)) : f2b((float)sext64(x, sw));
  case O_UITOFP: return dw == 64 ? d2b((double)x) : f2b((float)x);
  case O_FPTOSI: { double d = sw == 64 ? b2d(x) : b2f(x); if (!(d > -9.3e18 && d < 9.3e18)) return 1ull << (dw - 1); return (uint64_t)(int64_t)d & maskw(dw); }
  case O_FPTOUI: { double d = sw == 64 ? b2d(x) : b2f(x); if (!(d > -1 && d < 1.85e19)) return 0; return (uint64_t)d & maskw(dw); }
  case O_FPEXT: return d2b((double)b2f(x)); case O_FPTRUNC: return f2b((float)b2d(x));
  case O_FRND: { auto r = [&](double d) { switch (aux) { case 0: return floor(d); case 1: return ceil(d); case 2: return trunc(d); case 3: return rint(d); default: return round(d); } };
      return dw == 64 ? d2b(r(b2d(x))) : f2b((float)r(b2f(x))); }
  case O_FSQRT: return dw == 64 ? d2b(sqrt(b2d(x))) : f2b(sqrtf(b2f(x)));
  case O_DY: return d2b(ldexp((double)sext64(x, sw), -(int)(aux & 0xff)));
  default: abort();
  }
}
static unsigned bitsFor(int64_t lo, int64_t hi) { uint64_t m = std::max((uint64_t)(lo < 0 ? -(lo + 1) : lo), (uint64_t)(hi < 0 ? -(hi + 1) : hi)); if (lo == INT64_MIN) return 64; uint64_t a = std::max((uint64_t)std::llabs(lo), (uint64_t)std::llabs(hi)); (void)m; return a ? 64 - __builtin_clzll(a) : 0; }
// view e (width 64 double) as exact dyadic
static bool dyOf(E e, E &arg, unsigned &sc, unsigned &bits) {
  if (e->width != 64) return false;
  if (e->op == O_DY) { arg = e->a[0]; sc = e->c & 0xff; bits = e->c >> 8; return true; }
  if (e->op == O_CONST) { double d = b2d(e->c); if (!std::isfinite(d)) return false; if (d == 0) { if (std::signbit(d)) { } arg = mkConst(64, 0); sc = 0; bits = 0; return true; }
    for (unsigned s = 0; s <= 30; s++) { double x = ldexp(d, s); if (std::fabs(x) >= 9007199254740992.0) return false; if (x == floor(x)) { int64_t v = (int64_t)x; arg = mkConst(64, (uint64_t)v); sc = s; bits = bitsFor(v, v); return true; } } return false; }
  return false;
}
// dyadic numerators are kept as canonical linear combinations of atoms
typedef std::map<uint32_t, std::pair<E, int64_t>> LinMap;
static bool linCollect(E e, int64_t k, LinMap &m, int64_t &c, int &budget) {
  if (--budget < 0) return false;
  if (isC(e)) { c = (int64_t)((uint64_t)c + (uint64_t)k * e->c); return true; }
  if (e->op == O_ADD) return linCollect(e->a[0], k, m, c, budget) && linCollect(e->a[1], k, m, c, budget);
  if (e->op == O_MUL && isC(e->a[1])) { __int128 q = (__int128)k * (int64_t)e->a[1]->c; if (q > (1ll << 55) || q < -(1ll << 55)) return false; return linCollect(e->a[0], (int64_t)q, m, c, budget); }
  auto &p = m[e->id]; p.first = e; p.second += k; return true;
}
static bool linForm(E e, LinMap &m, int64_t &c, __int128 &lo, __int128 &hi) { // exact (no wrap-around) integer range
  if (e->width != 64) return false; int budget = 48; c = 0; if (!linCollect(e, 1, m, c, budget)) return false;
  lo = hi = c; for (auto it = m.begin(); it != m.end();) { if (!it->second.second) { it = m.erase(it); continue; } int64_t a, b; srange(it->second.first, a, b); __int128 x = (__int128)a * it->second.second, y = (__int128)b * it->second.second; if (x > y) std::swap(x, y); lo += x; hi += y; ++it; if (lo < -((__int128)1 << 100) || hi > ((__int128)1 << 100)) return false; }
  return lo > -((__int128)1 << 62) && hi < ((__int128)1 << 62);
}
static E linBuild(const LinMap &m, int64_t c, int64_t div) { E r = mkConst(64, 0); for (auto &p : m) r = mkAdd(r, mkMul(p.second.first, mkConst(64, (uint64_t)(p.second.second / div)))); return mkAdd(r, mkConst(64, (uint64_t)(c / div))); }
static bool linDivisible(const LinMap &m, int64_t c, int64_t d) { if (c % d) return false; for (auto &p : m) if (p.second.second % d) return false; return true; }
E mkDy(E arg, unsigned sc, unsigned bits) {
  if (!isC(arg)) { LinMap m; int64_t c; __int128 lo, hi; if (linForm(arg, m, c, lo, hi)) { int64_t d = 1; while (sc && linDivisible(m, c, d * 2)) { d *= 2; sc--; } arg = linBuild(m, c, d); unsigned b = bitsFor((int64_t)(lo / d), (int64_t)(hi / d)); if (b < bits) bits = b; } }
  if (isC(arg)) return mkConst(64, d2b(ldexp((double)sext64(arg->c, 64), -(int)sc)));
  int64_t lo, hi; srange(arg, lo, hi); unsigned b = bitsFor(lo, hi); if (b < bits) bits = b;
  return make(O_DY, 64, sc | (bits << 8), arg);
}
static bool dyAlign(E a, E b, E &x, E &y, unsigned &sc, unsigned &bx, unsigned &by) {
  unsigned s1, s2; if (!dyOf(a, x, s1, bx) || !dyOf(b, y, s2, by)) return false;
  if (x->op == O_CONST && x->c == 0) s1 = s2; if (y->op == O_CONST && y->c == 0) s2 = s1;
  sc = std::max(s1, s2); bx += sc - s1; by += sc - s2; if (bx > 53 || by > 53) return false;
  x = mkMul(x, mkConst(64, 1ull << (sc - s1))); y = mkMul(y, mkConst(64, 1ull << (sc - s2))); return true;
}
static E dyCmp(Op op, E a, E b, bool &ok) {
  E x, y; unsigned sc, bx, by; ok = dyAlign(a, b, x, y, sc, bx, by); if (!ok) return nullptr;
  if (!isC(x) || !isC(y)) { LinMap m; int64_t c; __int128 lo, hi; if (linForm(mkSub(x, y), m, c, lo, hi)) { if (op == O_EQ || op == O_FEQ) { if (lo > 0 || hi < 0) return F(); } else if (op == O_FLT) { if (hi < 0) return T(); if (lo >= 0) return F(); } else if (op == O_FLE) { if (hi <= 0) return T(); if (lo > 0) return F(); } x = linBuild(m, 0, 1); y = mkConst(64, (uint64_t)-c); } }
  if (op == O_EQ || op == O_FEQ) return mkEq(x, y);
  if (op == O_FLT) return mkCmp(O_SLT, x, y); if (op == O_FLE) return mkCmp(O_SLE, x, y); return F();
}
E mkFBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(w, hostFBin(op, w, a->c, b->c));
  if (w == 64 && (a->op == O_DY || b->op == O_DY)) {
    E x, y; unsigned sc, bx, by;
    if ((op == O_FADD || op == O_FSUB) && dyAlign(a, b, x, y, sc, bx, by)) { unsigned nb = std::max(bx, by) + 1; if (nb <= 53) return mkDy(op == O_FADD ? mkAdd(x, y) : mkSub(x, y), sc, nb); 
      int64_t lo, hi; E s = op == O_FADD ? mkAdd(x, y) : mkSub(x, y); srange(s, lo, hi); if (bitsFor(lo, hi) <= 53) return mkDy(s, sc, 53); }
    unsigned s1, s2;
    if (op == O_FMUL && dyOf(a, x, s1, bx) && dyOf(b, y, s2, by) && s1 + s2 <= 60 && bx + by <= 53) return mkDy(mkMul(x, y), s1 + s2, bx + by);
    if (op == O_FDIV && isC(b) && dyOf(a, x, s1, bx)) { double d = b2d(b->c); int ex; double m = frexp(d, &ex); // d = m*2^ex
      if (std::fabs(d) == std::floor(std::fabs(d)) && std::fabs(d) < 1e9) { int64_t dv = (int64_t)d, odd = dv < 0 ? -dv : dv; int sh = 0; while (odd && !(odd & 1)) odd >>= 1, sh++; LinMap lm; int64_t c; __int128 lo, hi; if (odd > 1 && s1 + sh <= 60 && linForm(x, lm, c, lo, hi) && linDivisible(lm, c, odd)) { E n = linBuild(lm, c, dv < 0 ? -odd : odd); return mkDy(n, s1 + sh, bx); } }
      if (m == 0.5 || m == -0.5) { int k = ex - 1; E n = m < 0 ? mkMul(x, mkConst(64, ~0ull)) : x; int ns = (int)s1 + k; if (ns >= 0 && ns <= 60) return mkDy(n, ns, bx); if (ns < 0 && bx - ns <= 53) return mkDy(mkMul(n, mkConst(64, 1ull << -ns)), 0, bx - ns); } }
  }
  if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
  return make(op, w, 0, a, b);
}
E mkFUn(Op op, E a) { if (isC(a)) return mkConst(a->width, hostCast(op, a->width, a->width, a->c, 0)); return make(op, a->width, 0, a); }
static bool fNonNeg(E e, int d = 6) { // never negative (may be NaN)
  if (e->width != 64 || d < 0) return false;
  if (isC(e)) return !std::signbit(b2d(e->c)); if (e->op == O_DY) { int64_t lo, hi; srange(e->a[0], lo, hi); return lo >= 0; }
  if (e->op == O_FADD || e->op == O_FMUL || e->op == O_FDIV) return fNonNeg(e->a[0], d - 1) && fNonNeg(e->a[1], d - 1);
  return e->umax < (1ull << 63);
}
// exact conditions under which a double is NaN / infinite, where the operands are bounded dyadics
struct FCls { E nan, inf; int ex; }; // |value| < 2^ex when finite
static bool fClass(E e, FCls &r, int d = 6) {
  if (e->width != 64 || d < 0) return false; E arg; unsigned sc, bits; if (dyOf(e, arg, sc, bits)) { r = {F(), F(), (int)bits - (int)sc + 1}; return true; }
  FCls x, y; if (e->op == O_FDIV) { E u, v; unsigned s1, s2, b1, b2; if (!dyOf(e->a[0], u, s1, b1) || !dyOf(e->a[1], v, s2, b2)) return false; auto zero = [](E t) { int64_t lo, hi; srange(t, lo, hi); return lo > 0 || hi < 0 ? F() : mkEq(t, mkConst(64, 0)); }; E zu = zero(u), zv = zero(v); r = {mkAnd(zu, zv), mkAnd(mkNot(zu), zv), (int)b1 - (int)s1 + (int)s2 + 1}; return true; }
  if (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL) { if (!fClass(e->a[0], x, d - 1) || !fClass(e->a[1], y, d - 1)) return false; bool fx = x.inf == F(), fy = y.inf == F(); if (e->op == O_FMUL ? !(fx && fy) : !(fx || fy)) return false; r = {mkOr(x.nan, y.nan), mkOr(x.inf, y.inf), e->op == O_FMUL ? x.ex + y.ex : std::max(x.ex, y.ex) + 1}; return r.ex < 900; }
  return false;
}
E mkFCmp(Op op, E a, E b) {
  if (op == O_FLT && isC(b) && (b->c << 1) == 0 && fNonNeg(a)) return F();
  if (isC(a) && isC(b)) return B(hostFBin(op, a->width, a->c, b->c));
  if (a->op == O_DY || b->op == O_DY) { bool ok; E r = dyCmp(op, a, b, ok); if (ok) return r; }
  if (op != O_FUNO && ((a->op == O_DY && isC(b)) || (b->op == O_DY && isC(a))) && a->width == 64) { // dyadic against any constant: exact integer comparison
    bool l = a->op == O_DY; E d = l ? a : b; double c = b2d(l ? b->c : a->c); if (std::isnan(c)) return F(); double v = ldexp(c, d->c & 0xff); E x = d->a[0];
    if (std::fabs(v) >= 4.6e18) return op == O_FEQ ? F() : B(l == (v > 0)); int64_t f = (int64_t)floor(v), g = (int64_t)ceil(v); E fl = mkConst(64, (uint64_t)f), ce = mkConst(64, (uint64_t)g);
    if (op == O_FEQ) return f == g ? mkEq(x, fl) : F(); if (l) return op == O_FLT ? mkCmp(O_SLT, x, ce) : mkCmp(O_SLE, x, fl); return op == O_FLT ? mkCmp(O_SLT, fl, x) : mkCmp(O_SLE, ce, x); }
  if (op == O_FUNO) { auto num = [](E e) { return e->op == O_DY || e->op == O_SITOFP || e->op == O_UITOFP || (isC(e) && !(e->width == 64 ? std::isnan(b2d(e->c)) : std::isnan(b2f(e->c)))); };
    bool na = num(a), nb = num(b); if (na && nb) return F(); }
  if (a == b && op == O_FLT) return F();
  if (a == b && (op == O_FEQ || op == O_FUNO)) { FCls c; if (fClass(a, c)) return op == O_FEQ ? mkNot(c.nan) : c.nan; }
  if (op == O_FUNO && a != b) { FCls c, d; if (fClass(a, c) && fClass(b, d)) return mkOr(c.nan, d.nan); }
  if ((op == O_FEQ || op == O_FUNO) && a->id > b->id) std::swap(a, b);
  return make(op, 1, 0, a, b);
}
E mkFCast(Op op, E a, unsigned w) {
  if (isC(a)) return mkConst(w, hostCast(op, a->width, w, a->c, 0));
  if ((op == O_SITOFP || op == O_UITOFP) && w == 64) { E x = a->width == 64 ? a : op == O_SITOFP ? mkSExt(a, 64) : mkZExt(a, 64); int64_t lo, hi; srange(x, lo, hi); if (op == O_UITOFP && a->width == 64 && a->umax > (1ull << 53)) lo = INT64_MIN;
    unsigned b = bitsFor(lo, hi); if (lo != INT64_MIN && b <= 53) return mkDy(x, 0, b); }
  if (op == O_FPTOSI && a->op == O_DY) { E x = a->a[0]; unsigned s = a->c & 0xff; E q = s ? mkBin(O_SDIV, x, mkConst(64, 1ull << s)) : x; return mkExtract(q, 0, w); }
  if (op == O_FPTOUI && a->op == O_DY) { E x = a->a[0]; unsigned s = a->c & 0xff; E q = s ? mkBin(O_SDIV, x, mkConst(64, 1ull << s)) : x; return mkExtract(q, 0, w); }
  if (op == O_FPTRUNC && a->op == O_FPEXT) return a->a[0];
  return make(op, w, 0, a);
}
E mkFRnd(E a, int mode) {
  if (isC(a)) return mkConst(a->width, hostCast(O_FRND, a->width, a->width, a->c, mode));
  if (a->op == O_DY) { E x = a->a[0]; unsigned s = a->c & 0xff, bits = a->c >> 8; if (!s) return a; E one = mkConst(64, 1ull << s);
    if (mode == 0) return mkDy(mkBin(O_ASHR, x, mkConst(64, s)), 0, bits); if (mode == 1) return mkDy(mkBin(O_ASHR, mkAdd(x, mkConst(64, (1ull << s) - 1)), mkConst(64, s)), 0, bits + 1); if (mode == 2) return mkDy(mkBin(O_SDIV, x, one), 0, bits);
    if (mode == 4) { E half = mkConst(64, 1ull << (s - 1)); E neg = mkCmp(O_SLT, x, mkConst(64, 0)); return mkDy(mkBin(O_SDIV, mkIte(neg, mkSub(x, half), mkAdd(x, half)), one), 0, bits + 1); } }
  return make(O_FRND, a->width, mode, a);
}
E mkFNeg(E a) { if (a->op == O_DY) return mkDy(mkMul(a->a[0], mkConst(64, ~0ull)), a->c & 0xff, a->c >> 8); return mkXor(a, mkConst(a->width, 1ull << (a->width - 1))); }
E mkFAbs(E a) { if (a->op == O_DY) { E x = a->a[0]; return mkDy(mkIte(mkCmp(O_SLT, x, mkConst(64, 0)), mkMul(x, mkConst(64, ~0ull)), x), a->c & 0xff, a->c >> 8); } return mkAnd(a, mkConst(a->width, maskw(a->width - 1))); }
E mkUF(const string &fn, unsigned w, E a, E b, E c) {
  size_t i = 0; for (; i < g_ufs.size(); i++) if (g_ufs[i] == fn) break; if (i == g_ufs.size()) g_ufs.push_back(fn);
  return make(O_UF, w, i, a, b, c);
}
// ---------------------------------------------------------------- eval
static bool ev(E e, const vector<uint64_t> &m, uint64_t &r) {
  if (e->op == O_CONST) { r = e->c; return true; }
  if (e->evStamp == g_stamp) { r = e->ev; return true; }
  if (e->hasUF) return false;
  uint64_t x = 0, y = 0, z = 0; unsigned w = e->width;
  if (e->op == O_ITE) { if (!ev(e->a[0], m, x)) return false; if (!ev(e->a[x ? 1 : 2], m, r)) return false; e->ev = r; e->evStamp = g_stamp; return true; }
  if (e->a[0] && !ev(e->a[0], m, x)) return false; if (e->a[1] && !ev(e->a[1], m, y)) return false; if (e->a[2] && !ev(e->a[2], m, z)) return false;
  switch (e->op) {
  case O_VAR: r = e->c < m.size() ? m[e->c] & maskw(w) : 0; break;
  case O_CONCAT: r = (x << e->a[1]->width) | y; break; case O_EXTRACT: r = (x >> e->c) & maskw(w); break;
  case O_ZEXT: r = x; break; case O_SEXT: r = (uint64_t)sext64(x, e->a[0]->width) & maskw(w); break;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FLT: case O_FLE: case O_FEQ: case O_FUNO: r = hostFBin(e->op, e->a[0]->width, x, y); break;
  case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: case O_FPEXT: case O_FPTRUNC: case O_FRND: case O_FSQRT: case O_DY: r = hostCast(e->op, e->a[0]->width, w, x, e->c); break;
  case O_UF: return false;
  default: r = foldBin(e->op, e->a[0]->width, x, y);
  }
  e->ev = r; e->evStamp = g_stamp; return true;
}
bool evalExpr(E e, const vector<uint64_t> &m, uint64_t &out, bool fresh) { if (fresh) g_stamp++; return ev(e, m, out); }
string exprStr(E e, int d) {
  static const char *nm[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frem", "flt", "fle", "feq", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "frnd", "dy", "uf"};
  if (e->op == O_CONST) return std::to_string(sext64(e->c, e->width)); if (e->op == O_VAR) return g_vars[e->c].name;
  if (d == 0) return "..."; string s = string("(") + nm[e->op] + std::to_string(e->width); if (e->op == O_EXTRACT) s += "@" + std::to_string(e->c); if (e->op == O_UF) s += ":" + g_ufs[e->c];
  for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], d - 1); return s + ")";
}
// ---------------------------------------------------------------- Z3
static Z3_context C;
static Z3_ast fpOf(E e) { Z3_sort s = e->width == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C);
  if (e->op == O_DY) { Z3_ast rm = Z3_mk_fpa_rne(C); Z3_ast v = Z3_mk_fpa_to_fp_signed(C, rm, g_solver.bvz(e->a[0]), s); unsigned sc = e->c & 0xff; if (!sc) return v; return Z3_mk_fpa_mul(C, rm, v, Z3_mk_fpa_numeral_double(C, ldexp(1.0, -(int)sc), s)); }
  return Z3_mk_fpa_to_fp_bv(C, g_solver.bvz(e), s); }
static Z3_ast ufApp(const string &n, unsigned w, E e) {
  Z3_sort dom[3]; Z3_ast args[3]; unsigned k = 0; for (int i = 0; i < 3; i++) if (e->a[i]) { dom[k] = Z3_mk_bv_sort(C, e->a[i]->width); args[k++] = g_solver.bvz(e->a[i]); }
  Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), k, dom, Z3_mk_bv_sort(C, w)); return Z3_mk_app(C, f, k, args);
}
Z3_ast Solver::bvz(E e) {
  if (e->zv) return e->zv; unsigned w = e->width; Z3_ast r;
  auto a = [&](int i) { return bvz(e->a[i]); };
  switch (e->op) {
  case O_CONST: r = Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, w)); break;
  case O_VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->c)).c_str()), Z3_mk_bv_sort(C, w)); break;
  case O_ADD: r = Z3_mk_bvadd(C, a(0), a(1)); break; case O_MUL: r = isC(e->a[1], maskw(w)) ? Z3_mk_bvneg(C, a(0)) : Z3_mk_bvmul(C, a(0), a(1)); break;
  case O_UDIV: r = Z3_mk_bvudiv(C, a(0), a(1)); break; case O_SDIV: r = Z3_mk_bvsdiv(C, a(0), a(1)); break;
  case O_UREM: r = Z3_mk_bvurem(C, a(0), a(1)); break; case O_SREM: r = Z3_mk_bvsrem(C, a(0), a(1)); break;
  case O_AND: if (w == 1) goto boolish; r = Z3_mk_bvand(C, a(0), a(1)); break; case O_OR: if (w == 1) goto boolish; r = Z3_mk_bvor(C, a(0), a(1)); break; case O_XOR: if (w == 1) goto boolish; r = Z3_mk_bvxor(C, a(0), a(1)); break;
  case O_SHL: r = Z3_mk_bvshl(C, a(0), a(1)); break; case O_LSHR: r = Z3_mk_bvlshr(C, a(0), a(1)); break; case O_ASHR: r = Z3_mk_bvashr(C, a(0), a(1)); break;
  case O_CONCAT: r = Z3_mk_concat(C, a(0), a(1)); break; case O_EXTRACT: r = Z3_mk_extract(C, e->c + w - 1, e->c, a(0)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(C, w - e->a[0]->width, a(0)); break; case O_SEXT: r = Z3_mk_sign_ext(C, w - e->a[0]->width, a(0)); break;
  case O_ITE: r = Z3_mk_ite(C, bz(e->a[0]), a(1), a(2)); break;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
    if (g_fpUF) { static const char *n[] = {"fadd", "fsub", "fmul", "fdiv", "fsqrt", "frem"}; r = ufApp(string(n[e->op - O_FADD]) + std::to_string(w), w, e); break; }
    { Z3_ast rm = Z3_mk_fpa_rne(C), x = fpOf(e->a[0]), y = fpOf(e->a[1]), f; f = e->op == O_FADD ? Z3_mk_fpa_add(C, rm, x, y) : e->op == O_FSUB ? Z3_mk_fpa_sub(C, rm, x, y) : e->op == O_FMUL ? Z3_mk_fpa_mul(C, rm, x, y) : e->op == O_FDIV ? Z3_mk_fpa_div(C, rm, x, y) : nullptr;
      if (!f) { r = ufApp("frem" + std::to_string(w), w, e); break; } r = Z3_mk_fpa_to_ieee_bv(C, f); break; }
  case O_FSQRT: if (g_fpUF) { r = ufApp("fsqrt" + std::to_string(w), w, e); break; } r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), fpOf(e->a[0]))); break;
  case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), a(0), w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C))); break;
  case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), a(0), w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C))); break;
  case O_FPTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fpOf(e->a[0]), w); break; case O_FPTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fpOf(e->a[0]), w); break;
  case O_FPEXT: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), fpOf(e->a[0]), Z3_mk_fpa_sort_double(C))); break;
  case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), fpOf(e->a[0]), Z3_mk_fpa_sort_single(C))); break;
  case O_FRND: { Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rtn(C) : e->c == 1 ? Z3_mk_fpa_rtp(C) : e->c == 2 ? Z3_mk_fpa_rtz(C) : e->c == 3 ? Z3_mk_fpa_rne(C) : Z3_mk_fpa_rna(C); r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rm, fpOf(e->a[0]))); break; }
  case O_DY: r = Z3_mk_fpa_to_ieee_bv(C, fpOf(e)); break;
  case O_UF: r = ufApp("uf_" + g_ufs[e->c], w, e); break;
  default: boolish: { Z3_sort s = Z3_mk_bv_sort(C, 1); r = Z3_mk_ite(C, bz(e), Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s)); }
  }
  return e->zv = r;
}
Z3_ast Solver::bz(E e) {
  if (e->zb) return e->zb; Z3_ast r; auto a = [&](int i) { return bvz(e->a[i]); };
  switch (e->op) {
  case O_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case O_EQ: r = Z3_mk_eq(C, a(0), a(1)); break; case O_ULT: r = Z3_mk_bvult(C, a(0), a(1)); break; case O_ULE: r = Z3_mk_bvule(C, a(0), a(1)); break;
  case O_SLT: r = Z3_mk_bvslt(C, a(0), a(1)); break; case O_SLE: r = Z3_mk_bvsle(C, a(0), a(1)); break;
  case O_AND: { Z3_ast x[2] = {bz(e->a[0]), bz(e->a[1])}; r = Z3_mk_and(C, 2, x); break; } case O_OR: { Z3_ast x[2] = {bz(e->a[0]), bz(e->a[1])}; r = Z3_mk_or(C, 2, x); break; }
  case O_XOR: if (isC(e->a[1], 1)) r = Z3_mk_not(C, bz(e->a[0])); else r = Z3_mk_xor(C, bz(e->a[0]), bz(e->a[1])); break;
  case O_ITE: r = Z3_mk_ite(C, bz(e->a[0]), bz(e->a[1]), bz(e->a[2])); break;
  case O_FLT: r = Z3_mk_fpa_lt(C, fpOf(e->a[0]), fpOf(e->a[1])); break; case O_FLE: r = Z3_mk_fpa_leq(C, fpOf(e->a[0]), fpOf(e->a[1])); break; case O_FEQ: r = Z3_mk_fpa_eq(C, fpOf(e->a[0]), fpOf(e->a[1])); break;
  case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, fpOf(e->a[0])), Z3_mk_fpa_is_nan(C, fpOf(e->a[1]))}; r = Z3_mk_or(C, 2, x); break; }
  default: r = Z3_mk_eq(C, bvz(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
  return e->zb = r;
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: Z3 error %d: %s\n", e, Z3_get_error_msg(c, e)); _exit(70); }
void Solver::init() {
  Z3_global_param_set("parallel.enable", "false"); Z3_global_param_set("rlimit", "0");
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); C = ctx; Z3_set_error_handler(C, zerr);
}
struct VecHash { size_t operator()(const vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 ^ x; return h; } };
static std::unordered_map<vector<uint32_t>, std::pair<int, vector<uint64_t>>, VecHash> qcache;

int Solver::check(const vector<E> &cs0, vector<uint64_t> *model) {
  vector<E> cs; vector<uint32_t> key; bool uf = false, fp = false; std::set<uint32_t> vs;
  for (E c : cs0) { if (isC(c)) { if (!c->c) return 0; continue; } cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  for (E c : cs) { key.push_back(c->id); uf |= c->hasUF; fp |= c->hasFP; vs.insert(c->vars->begin(), c->vars->end()); }
  if (cs.empty()) { if (model) model->assign(g_vars.size(), 0); return 1; }
  auto it = qcache.find(key); if (it != qcache.end()) { cacheHits++; if (model) *model = it->second.second; return it->second.first; }
  if (!uf) for (size_t i = models.size(); i-- > 0;) { g_stamp++; bool all = true; for (E c : cs) { uint64_t v; if (!ev(c, models[i], v) || !v) { all = false; break; } } 
      if (all) for (auto v : vs) { auto &vi = g_vars[v]; if (vi.hasRange) { int64_t x = sext64(v < models[i].size() ? models[i][v] : 0, vi.width); if (x < vi.lo || x > vi.hi) { all = false; break; } } }
      if (all) { cacheHits++; if (model) { *model = models[i]; model->resize(g_vars.size(), 0); } return 1; } }
  auto t0 = std::chrono::steady_clock::now();
  if (!uf && vs.size() == 1) { // one variable with a small finite domain: decide by evaluating every value
    uint32_t v0 = *vs.begin(); auto &vi = g_vars[v0]; int64_t lo = 0, hi = -1; if (vi.hasRange) lo = vi.lo, hi = vi.hi; else if (vi.width <= 8) lo = 0, hi = maskw(vi.width);
    if (hi >= lo && hi - lo < 300) {
      vector<uint64_t> m; m.assign(g_vars.size(), 0); int res = 0;
      for (int64_t x = lo; x <= hi; x++) { m[v0] = (uint64_t)x & maskw(vi.width); g_stamp++; bool all = true; for (E c : cs) { uint64_t v; if (!ev(c, m, v) || !v) { all = false; break; } } if (all) { res = 1; break; } }
      if (!res) m.clear(); else { for (size_t i = 0; i < g_vars.size(); i++) if (i != v0 && g_vars[i].hasRange && (g_vars[i].lo > 0 || g_vars[i].hi < 0)) m[i] = (uint64_t)g_vars[i].lo & maskw(g_vars[i].width); }
      queries++; secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); qcache[key] = {res, m}; if (model) *model = m; return res; } }
  static Z3_solver inc = nullptr; static int incN = 0; static Z3_params incP = nullptr; static std::set<uint32_t> incVars; Z3_solver s;
  if (!uf && !fp) { // incremental core with a resource limit first
    if (!inc || ++incN > 400) { if (inc) Z3_solver_dec_ref(C, inc); inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); incN = 0; incP = Z3_mk_params(C); Z3_params_inc_ref(C, incP); Z3_params_set_uint(C, incP, Z3_mk_string_symbol(C, "rlimit"), 400000); Z3_solver_set_params(C, inc, incP); }
    Z3_solver_push(C, inc); for (E c : cs) Z3_solver_assert(C, inc, bz(c));
    for (auto v : vs) { auto &vi = g_vars[v]; if (vi.hasRange) { Z3_sort bs = Z3_mk_bv_sort(C, vi.width); Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), bs);
      Z3_solver_assert(C, inc, Z3_mk_bvsle(C, Z3_mk_int64(C, vi.lo, bs), x)); Z3_solver_assert(C, inc, Z3_mk_bvsle(C, x, Z3_mk_int64(C, vi.hi, bs))); } }
    Z3_lbool r = Z3_solver_check(C, inc); 
    if (r != Z3_L_UNDEF) { queries++; vector<uint64_t> m; int res = r == Z3_L_TRUE;
      if (res) { m.assign(g_vars.size(), 0); for (size_t i = 0; i < g_vars.size(); i++) if (g_vars[i].hasRange && (g_vars[i].lo > 0 || g_vars[i].hi < 0)) m[i] = (uint64_t)g_vars[i].lo & maskw(g_vars[i].width);
        Z3_model zm = Z3_solver_get_model(C, inc); Z3_model_inc_ref(C, zm);
        for (auto v : vs) { Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(C, g_vars[v].width)), out; uint64_t u; if (Z3_model_eval(C, zm, x, true, &out) && Z3_get_numeral_uint64(C, out, &u)) m[v] = u; }
        Z3_model_dec_ref(C, zm); models.push_back(m); if (models.size() > 40) models.erase(models.begin()); }
      Z3_solver_pop(C, inc, 1); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; maxSecs = std::max(maxSecs, dt); qcache[key] = {res, m}; if (model) *model = m; return res; }
    Z3_solver_pop(C, inc, 1); }
  if (fp && !g_fpUF && !uf) { Z3_tactic t = Z3_mk_tactic(C, "qffpbv"); s = Z3_mk_solver_from_tactic(C, t); }
  else if (!uf && !fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  else s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  for (E c : cs) Z3_solver_assert(C, s, bz(c));
  for (auto v : vs) { auto &vi = g_vars[v]; if (vi.hasRange) { Z3_sort bs = Z3_mk_bv_sort(C, vi.width); Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), bs);
      Z3_solver_assert(C, s, Z3_mk_bvsle(C, Z3_mk_int64(C, vi.lo, bs), x)); Z3_solver_assert(C, s, Z3_mk_bvsle(C, x, Z3_mk_int64(C, vi.hi, bs))); } }
  Z3_lbool r = Z3_solver_check(C, s); queries++;
  vector<uint64_t> m; int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    m.assign(g_vars.size(), 0); for (size_t i = 0; i < g_vars.size(); i++) if (g_vars[i].hasRange && (g_vars[i].lo > 0 || g_vars[i].hi < 0)) m[i] = (uint64_t)g_vars[i].lo & maskw(g_vars[i].width);
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
    for (auto v : vs) { Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(C, g_vars[v].width)), out; uint64_t u;
      if (Z3_model_eval(C, zm, x, true, &out) && Z3_get_numeral_uint64(C, out, &u)) m[v] = u; }
    Z3_model_dec_ref(C, zm);
    models.push_back(m); if (models.size() > 40) models.erase(models.begin());
  }
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; maxSecs = std::max(maxSecs, dt);
  if (getenv("SX_SLOWQ") && dt > 1) { fprintf(stderr, "slow query %.1fs:", dt); for (E c : cs) fprintf(stderr, "  %s\n", exprStr(c).c_str()); }
  qcache[key] = {res, m};
  if (model) *model = m; return res;
}
