// Timestamp arithmetic, ordering and conversions
#include "sx.h"
#include <DMI/Timestamp.h>
#include <cstdio>
using namespace DMI;
struct S { long s, u; };
static Timestamp mk(const char *nm, S &m) { const long B = 1L << 40; char b[24]; snprintf(b, 24, "%s_s", nm); m.s = sx_range(b, -B, B); snprintf(b, 24, "%s_u", nm); m.u = sx_range(b, 0, 999999); return Timestamp(m.s, m.u); }
static bool is(const Timestamp &t, long s, long u) { return (t.sec() == s) & (t.usec() == u); }
static bool norm(const Timestamp &t) { return (t.usec() >= 0) & (t.usec() < 1000000); }
static bool lt(S a, S b) { return (a.s < b.s) | ((a.s == b.s) & (a.u < b.u)); }
ENTRY ts_arith() {
  S a, b; Timestamp x = mk("a", a), y = mk("b", b);
  Timestamp s = x + y, d = x - y; CHECK(norm(s) && norm(d), "results are normalised");
  long u = a.u + b.u; CHECK(u < 1000000 ? is(s, a.s + b.s, u) : is(s, a.s + b.s + 1, u - 1000000), "sum is exact"); u = a.u - b.u; CHECK(u >= 0 ? is(d, a.s - b.s, u) : is(d, a.s - b.s - 1, u + 1000000), "difference is exact");
  CHECK(s - y == x && d + y == x, "subtraction undoes addition"); Timestamp w = x; w += y; CHECK(w == s, "in-place sum"); w -= y; CHECK(w == x, "in-place difference");
  struct timeval tv; x.to_timeval(tv); CHECK(Timestamp(tv) == x && tv.tv_sec == a.s && tv.tv_usec == a.u, "timeval conversion is lossless");
  x.reset(); CHECK(is(x, 0, 0), "reset"); sx_reach("end");
}
ENTRY ts_order() {
  S a, b; Timestamp x = mk("a", a), y = mk("b", b); bool l = lt(a, b), g = lt(b, a);
  CHECK((x < y) == l, "<"); CHECK((x > y) == g, ">"); CHECK((x <= y) == !g, "<="); CHECK((x >= y) == !l, ">="); CHECK((x == y) == (!l & !g), "=="); CHECK((x != y) == (l | g), "!=");
  CHECK((bool)x == ((a.s != 0) | (a.u != 0)) && !x == ((a.s == 0) & (a.u == 0)), "zero test");
  Timestamp d = x - y; CHECK((x < y) == (d.sec() < 0), "ordering agrees with the sign of the difference"); sx_reach(l ? "lt" : g ? "gt" : "eq");
}
ENTRY ts_normalize() { long s = sx_range("s", -1000, 1000), u = sx_range("u", -2500000, 2500000); Timestamp t(s, u); t.normalize(); CHECK(norm(t), "normalised"); CHECK(t.sec() * 1000000 + t.usec() == s * 1000000 + u, "same instant"); sx_reach("end"); }
// seconds that are multiples of 1/64
ENTRY ts_fromsec() { double d = sx_dyadic("d", -(1L << TIERED(14, 30)), 1L << TIERED(14, 30), 6); long k = (long)(d * 64.0); Timestamp t(d); CHECK(norm(t), "normalised"); CHECK(t.sec() == (k >> 6), "whole seconds round down"); CHECK(t.usec() == (k & 63) * 15625, "microseconds are exact"); sx_reach("end"); }
ENTRY ts_text() {
  static const long S[] = {0, 1, 59, 1234567, 1500000000}, U[] = {0, 1, 500000, 999999}; long s = S[sx_choose("s", 5)], u = U[sx_choose("u", 4)]; Timestamp t(s, u); char b[64]; std::string v;
  snprintf(b, 64, "%ld.%06ld", s, u); v = b; CHECK(t.toString("s") == v && t.toString(Timestamp::SEC) == v, "text in seconds");
  snprintf(b, 64, "%ld.%03ld", s * 1000 + u / 1000, u % 1000); v = b; CHECK(t.toString("ms") == v && t.toString(Timestamp::MSEC) == v, "text in milliseconds");
  snprintf(b, 64, "%ld", s * 1000000 + u); v = b; CHECK(t.toString("us") == v && t.toString(Timestamp::USEC) == v, "text in microseconds");
  snprintf(b, 64, "%ld", s * 1000000000 + u * 1000); v = b; CHECK(t.toString("ns") == v && t.toString(Timestamp::NSEC) == v, "text in nanoseconds"); sx_reach("end");
}
ENTRY ts_tiny() { double d = sx_double("d"); sx_assume(d > -1.0 && d < 1.0); Timestamp t(d); CHECK(norm(t), "normalised"); sx_reach("end"); }
// scaling by simple factors: exact to the microsecond
ENTRY ts_scale() {
  static const long S[] = {0, 1, -1, 7, -1000, 86400, -86401, 1500000000}, U[] = {0, 4, 1000, 500000, 999996}; static const int N[] = {0, 4, 8, 12, -4, -8, 2, 1, -2, -1, 10}; // quarters
  long s = S[sx_choose("s", 8)], u = U[sx_choose("u", 5)]; int q = N[sx_choose("q", 11)]; long want = (s * 1000000 + u) * q / 4; Timestamp t(s, u), r = t * (q / 4.0);
  CHECK(norm(r), "normalised"); CHECK(r.sec() * 1000000 + r.usec() == want, "scaled exactly"); CHECK(is(t, s, u), "operand unchanged");
  if (q == 4 || q == 8 || q == -4 || q == -8 || q == 2 || q == 1 || q == -2 || q == -1) { Timestamp d = t / (4.0 / q); CHECK(d == r, "division is scaling by the inverse"); } sx_reach("end");
}
