// HIID / AtomicID: wire round trip, ordering, matching, structural edits, text round trip
#include "sx.h"
#include <DMI/HIID.h>
#include <cstdio>
using namespace DMI;
static const int W[] = {-1, -2, -3, -4, -5, -6, 0, 1, 2};
// symbolic id of length 0..max; elements arbitrary 32-bit patterns
static int mk(HIID &h, int *m, int max, const char *nm) {
  char b[32]; snprintf(b, sizeof b, "%s_len", nm); int n = sx_choose(b, max + 1);
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s_%d", nm, i); m[i] = (int)sx_bits(b, 32); h.add(AtomicID(m[i])); }
  return n;
}
static bool same(const HIID &h, const int *m, int n) { if ((int)h.size() != n) return false; bool ok = true; for (int i = 0; i < n; i++) ok = ok & (h[i].id() == m[i]); return ok; }

ENTRY hiid_pack() {
  int m[8]; HIID h; int n = mk(h, m, TIERED(5, 8), "a");
  CHECK(h.packSize() == n * sizeof(AtomicID), "packSize is the number of bytes written");
  int extra = sx_choose("extra", 3) * 4; char *buf = new char[n * 4 + extra + 1]; size_t nleft = n * 4 + extra;
  size_t w = h.pack(buf, nleft);
  CHECK(w == h.packSize(), "pack returns packSize"); CHECK((int)nleft == extra, "pack accounts for the bytes it used");
  HIID g; int dummy[2]; mk(g, dummy, 2, "old"); g.unpack(buf, w);
  CHECK(same(g, m, n), "unpack restores the id"); CHECK(g == h, "round trip equal");
  HIID k(buf, (int)w); CHECK(same(k, m, n), "constructor from block restores the id");
  if (n) { nleft = n * 4 - 1 - sx_choose("short", 3); bool thr = false; char *sb = new char[nleft + 1]; try { h.pack(sb, nleft); } catch (std::exception &) { thr = true; } CHECK(thr, "pack refuses a buffer that is too small"); sx_reach("short"); delete[] sb; }
  bool thr = false; try { g.unpack(buf, n * 4 + 1); } catch (std::exception &) { thr = true; } CHECK(thr, "unpack refuses a partial element");
  delete[] buf; sx_reach("end");
}
static int icmp(const int *a, int n, const int *b, int k) { // lexicographic
  for (int i = 0; i < n && i < k; i++) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; }
  return n < k ? -1 : n > k ? 1 : 0;
}
static bool any(int v) { return v == -1 || v == -2; }
// reference matcher: "?" matches any one atom, "*" matches everything from there on (in either id)
static bool matchm(const int *a, int n, const int *b, int k, bool tail) {
  for (int i = 0;; i++) {
    if (i == k && tail) return true;
    if (i < n && a[i] == -2) return true; if (i < k && b[i] == -2) return true;
    if (i == n || i == k) return n == k;
    if (!any(a[i]) && !any(b[i]) && a[i] != b[i]) return false;
  }
}
ENTRY hiid_order() {
  int a[4], b[4], c[4]; HIID x, y, z; int N = TIERED(3, 4); int na = mk(x, a, N, "a"), nb = mk(y, b, N, "b");
  int r = icmp(a, na, b, nb);
  CHECK((x < y) == (r < 0), "less-than is the lexicographic order"); CHECK((x == y) == (r == 0), "equality is element equality"); CHECK((x != y) == (r != 0), "!= is the negation of ==");
  CHECK((y < x) == (r > 0), "order is total and antisymmetric"); CHECK(!(x < x) && x == x, "irreflexive");
  bool pre = matchm(a, na, b, nb, true);
  CHECK(x.prefixedBy(y) == pre, "prefixedBy");
  sx_reach(r < 0 ? "lt" : r > 0 ? "gt" : "eq");
}

static const int TESTMAX = 4;
// ids made of names, indices, "?" and "*": element kinds are chosen, plain values stay symbolic
static int mkpat(HIID &h, int *m, int max, const char *nm, bool wild) {
  char b[32]; snprintf(b, sizeof b, "%s_len", nm); int n = sx_choose(b, max + 1);
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s_%d", nm, i); m[i] = (int)sx_range(b, wild ? -2 : 1, 3); h.add(AtomicID(m[i])); }
  return n;
}
ENTRY hiid_match() {
  int a[4], b[4]; HIID x, y; int N = TIERED(3, 4); int na = mkpat(x, a, N, "a", true), nb = mkpat(y, b, N, "b", true);
  bool e = matchm(a, na, b, nb, false);
  CHECK(x.matches(y) == e, "pattern match: ? is one element, * is the rest"); CHECK(y.matches(x) == e, "matching is symmetric"); CHECK(x.matches(x), "every id matches itself");
  sx_reach(e ? "match" : "nomatch");
}
ENTRY hiid_subset() {
  int a[4], b[4]; HIID x, y; int N = 3; int na = mkpat(x, a, N, "a", true), nb = mkpat(y, b, N, "b", true);
  bool sub = x.subsetOf(y);
  // soundness: everything matching x matches y
  // completeness: otherwise one of two witnesses matches x but not y
  int star = -1; for (int i = 0; i < na; i++) if (a[i] == -2) { star = i; break; }
  int k = star < 0 ? na : star; HIID s, l;
  for (int i = 0; i < k; i++) { AtomicID v(a[i] == -1 ? 77 : a[i]); s.add(v); l.add(v); }
  if (star >= 0) for (int i = 0; i < 4; i++) l.add(AtomicID(77));
  CHECK(s.matches(x) && l.matches(x), "witnesses belong to the pattern");
  CHECK(sub == (s.matches(y) && l.matches(y)), "subset relation agrees with the most general members of the pattern");
  CHECK(x.subsetOf(x), "reflexive");
  if (sub) { int c[4]; HIID z; mkpat(z, c, N, "c", false); CHECK(!z.matches(x) || z.matches(y), "every id matching the subset pattern matches the superset pattern"); }
  sx_reach(sub ? "sub" : "nosub");
}
ENTRY hiid_edit() {
  int a[5], b[4], e[16]; HIID x, y; int N = TIERED(4, 5); int na = mk(x, a, N, "a");
  int op = sx_choose("op", 6);
  if (op == 0) { int n = sx_choose("n", 4), v = (int)sx_bits("v", 32); x.push_front(AtomicID(v), n); int k = 0; for (int i = 0; i < n; i++) e[k++] = v; for (int i = 0; i < na; i++) e[k++] = a[i]; CHECK(same(x, e, k), "push_front puts n copies in front and keeps the rest"); if (na > 1 && n) sx_reach("push"); }
  else if (op == 1) { int n = sx_choose("n", 7); x.pop_front(n); int k = 0; for (int i = n; i < na; i++) e[k++] = a[i]; CHECK(same(x, e, k), "pop_front drops the first n elements"); sx_reach("pop"); }
  else if (op == 2) { int nb = mk(y, b, 3, "b"); HIID z = x | y; int k = 0; for (int i = 0; i < na; i++) e[k++] = a[i]; for (int i = 0; i < nb; i++) e[k++] = b[i]; CHECK(same(z, e, k), "concatenation"); CHECK(same(x, a, na) && same(y, b, nb), "operands unchanged"); x |= y; CHECK(x == z, "in-place concatenation"); HIID w = x; w.add(w); CHECK((int)w.size() == 2 * k, "self concatenation"); bool ok = true; for (int i = 0; i < 2 * k; i++) ok = ok & (w[i].id() == e[i % (k ? k : 1)]); CHECK(ok, "self concatenation content"); sx_reach("cat"); }
  else if (op == 3) { // sub-id; negative positions count from the end
    int f = sx_choose("f", 2 * N + 1) - N, l = sx_choose("l", 2 * N + 1) - N; int f1 = f >= 0 ? f : na + f, l1 = l >= 0 ? l : na + l;
    sx_assume(f1 >= 0 && f1 <= na && l1 >= -1 && l1 < na);
    HIID z = x.subId(f, l); int k = 0; for (int i = f1; i <= l1; i++) e[k++] = a[i]; CHECK(same(z, e, k), "sub-id from first to last inclusive"); CHECK(same(x, a, na), "source unchanged"); if (k > 1 && f < 0) sx_reach("subneg"); }
  else if (op == 4) { int r = x.popLeadIndex(); if (na && a[0] >= 0) { CHECK(r == a[0] && same(x, a + 1, na - 1), "leading index is returned and removed"); sx_reach("lead"); } else CHECK(r == 0 && same(x, a, na), "no leading index: unchanged"); }
  else { int r = x.popTrailIndex(); if (na && a[na - 1] >= 0) { CHECK(r == a[na - 1] && same(x, a, na - 1), "trailing index is returned and removed"); sx_reach("trail"); } else CHECK(r == 0 && same(x, a, na), "no trailing index: unchanged"); }
}
ENTRY hiid_slash() {
  int a[6], e[8]; HIID x; int na = mk(x, a, TIERED(4, 6), "a"); int p = -1; for (int i = 0; i < na; i++) if (a[i] == -3) { p = i; break; }
  CHECK(x.findFirstSlash() == p, "position of the first slash");
  HIID y = x, h = y.splitAtSlash();
  if (p < 0) { CHECK(same(h, a, na) && y.empty(), "no slash: everything is split off"); }
  else { CHECK(same(h, a, p), "head is everything before the slash"); CHECK(same(y, a + p + 1, na - p - 1), "rest is everything after it"); sx_reach("slash"); }
  HIID z = x; int n = 0; while (n < na && a[n] == -3) n++; CHECK(z.popLeadSlashes() == n, "number of leading slashes"); CHECK(same(z, a + n, na - n), "leading slashes removed"); if (n > 1) sx_reach("lead2");
}
// text form: names, indices, ? * # joined by separators, slashes and ranges between elements
ENTRY hiid_text() {
  static const int V[] = {-1, -2, -6, -1001, -1019, -3, -4, 0}; int n = 1 + sx_choose("n", TIERED(3, 4)); HIID x; int prev = -3;
  for (int i = 0; i < n; i++) {
    char b[16]; snprintf(b, 16, "k%d", i); int v = V[sx_choose(b, 8)]; bool sl = v == -3 || v == -4;
    if (v == 0) { snprintf(b, 16, "x%d", i); v = (int)sx_range(b, 0, i ? 9 : TIERED(30, 120)); }
    sx_assume(!(sl && (prev == -3 || prev == -4 || i == n - 1))); prev = v; x.add(AtomicID(v));
  }
  std::string s = x.toString('.'), s2 = x.toString('_'); HIID y(s), z(s2);
  CHECK(y == x, "text form with '.' parses back to the same id"); CHECK(z == x, "text form with '_' parses back to the same id"); CHECK(HIID(strlowercase(s)) == x, "parsing ignores case");
  sx_reach("end");
}
ENTRY hiid_literal() {
  int n = 1 + sx_choose("n", TIERED(3, 5)); std::string s("$");
  for (int i = 0; i < n; i++) { char b[16]; snprintf(b, 16, "c%d", i); char c = (char)sx_range(b, 1, 126); sx_assume(c != '.' && c != '_' && c != '/' && c != ':' && !(c >= 'A' && c <= 'Z')); s += c; }
  bool tail = sx_choose("tail", 2); HIID x(tail ? s + ".A" : s);
  CHECK((int)x.size() == 1 + (n + 3) / 4 + tail, "length of a literal");
  CHECK(x.toString('.') == (tail ? s + ".A" : s), "literal strings survive"); HIID y(x.toString('.')); CHECK(y == x, "and parse back");
  sx_reach("end");
}
// arbitrary bytes off the wire: conversion to text must stay inside the id
ENTRY hiid_wild_text() {
  int n = 1 + sx_choose("n", 3); unsigned *w = new unsigned[n]; for (int i = 0; i < n; i++) { char b[16]; snprintf(b, 16, "w%d", i); w[i] = sx_choose("lit", 2) ? 0x7FFF0000u | (unsigned)sx_range(b, 0, 65535) : (unsigned)sx_range(b, 0, 9); }
  HIID x(w, n * 4); std::string s = x.toString(); CHECK(s.length() <= 64, "text length is bounded by the id"); delete[] w; sx_reach("end");
}
