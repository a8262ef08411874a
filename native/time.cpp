#include "h.h"
#include "icl_core/TimeBase.h"
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
#include "boost/date_time/posix_time/posix_time.hpp"
using namespace icl_core;
typedef __int128 W;
static const W G = 1000000000;
static std::string str(W v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; std::string s; while (v) { s += char('0' + int(v % 10)); v /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }
struct RawBase : TimeBase { RawBase(int64_t s, int32_t n) { secs = s; nsecs = n; } RawBase() {} };
static W val(const TimeBase& t) { return W(t.tbSec()) * G + t.tbNSec(); }
static const TimeBase& B(const TimeSpan& t) { return reinterpret_cast<const TimeBase&>(t); }
static const TimeBase& B(const TimeStamp& t) { return reinterpret_cast<const TimeBase&>(t); }
static bool norm(const TimeBase& t) { int64_t s = t.tbSec(); int32_t n = t.tbNSec(); return n < G && n > -G && !(s > 0 && n < 0) && !(s < 0 && n > 0); }
static void is(const TimeBase& t, W v, const char* what)
{
  CHECK(val(t) == v, what, ": got ", str(val(t)), "ns, expected ", str(v), "ns");
  CHECK(norm(t), what, ": not normalised: ", t.tbSec(), "s ", t.tbNSec(), "ns");
}
static void ref(const TimeBase& r, const TimeBase& p, const char* what) { CHECK(&r == &p, what, " does not return its left operand"); }
static void one(int64_t s, int32_t n)
{
  g_ctx = cat("s=", s, " n=", n);
  W v = W(s) * G + n;
  RawBase r(s, n); r.normalizeTime(); is(r, v, "normalizeTime");
  is(TimeBase(s, n), v, "TimeBase(sec,nsec)");
  is(B(TimeSpan(s, n)), v, "TimeSpan(sec,nsec)");
  struct timespec ts; ts.tv_sec = s; ts.tv_nsec = n;
  is(TimeBase(ts), v, "TimeBase(timespec)");
  is(B(TimeSpan(ts)), v, "TimeSpan(timespec)");
  is(B(TimeStamp(ts)), v, "TimeStamp(timespec)");
  RawBase f(7, 7); f.fromTimespec(ts); is(f, v, "fromTimespec");
  is(B(TimeStamp(time_t(s))), W(s) * G, "TimeStamp(time_t)");
  is(B(TimeStamp()), 0, "TimeStamp()");
  is(B(TimeSpan::cZERO), 0, "cZERO"); is(B(TimeStamp::cZERO), 0, "cZERO");
  if (s >= 0 && n >= 0) is(B(TimeStamp(uint64_t(s), uint32_t(n))), v, "TimeStamp(sec,nsec)");
  // decomposition
  TimeBase t(s, n);
  int64_t ss = t.tbSec();
  CHECK(t.days() == ss / 86400 && t.hours() == (ss % 86400) / 3600 && t.minutes() == (ss % 3600) / 60 && t.seconds() == ss % 60, "calendar components of ", ss, "s: ", t.days(), " ", t.hours(), " ", t.minutes(), " ", t.seconds());
  int32_t nn = t.tbNSec();
  CHECK(t.milliSeconds() == nn / 1000000 && t.microSeconds() == nn / 1000 && t.nanoSeconds() == nn % 1000, "sub-second components of ", nn);
  struct timespec o = t.timespec(); CHECK(o.tv_sec == ss && o.tv_nsec == nn, "timespec()"); o = t.systemTimespec(); CHECK(o.tv_sec == ss && o.tv_nsec == nn, "systemTimespec()");
  TimeSpan sp(s, n);
  CHECK(sp.tsSec() == ss && sp.tsNSec() == nn && sp.tsUSec() == nn / 1000, "TimeSpan accessors");
  CHECK(sp.days() == t.days() && sp.hours() == t.hours() && sp.minutes() == t.minutes() && sp.seconds() == t.seconds() && sp.milliSeconds() == t.milliSeconds() && sp.microSeconds() == t.microSeconds() && sp.nanoSeconds() == t.nanoSeconds(), "TimeSpan components");
  W nv = W(ss) * G + nn;
  if (nv / 1000000 < W(INT64_MAX) && nv / 1000000 > W(INT64_MIN)) CHECK(W(sp.toMSec()) == nv / 1000000, "toMSec: ", sp.toMSec());
  if (nv / 1000 < W(INT64_MAX) && nv / 1000 > W(INT64_MIN)) CHECK(W(sp.toUSec()) == nv / 1000, "toUSec: ", sp.toUSec());
  if (nv < W(INT64_MAX) && nv > W(INT64_MIN)) CHECK(W(sp.toNSec()) == nv, "toNSec: ", sp.toNSec());
  is(B(icl_core::abs(sp)), v < 0 ? -v : v, "abs");
  TimeStamp st(TimeStamp(time_t(0)) + sp);
  CHECK(st.tsSec() == uint64_t(ss) && st.tsNSec() == uint32_t(nn) && st.tsUSec() == uint32_t(nn / 1000), "TimeStamp accessors");
}
static void conv(int64_t x)
{
  g_ctx = cat("x=", x);
  TimeSpan a;
  if (x > -(int64_t(1) << 62) && x < (int64_t(1) << 62)) { is(B(a.fromSec(x)), W(x) * G, "fromSec"); is(B(TimeSpan::createFromSec(x)), W(x) * G, "createFromSec"); }
  TimeSpan b(3, 4), c(-3, -4);
  is(B(b.fromMSec(x)), W(x) * 1000000, "fromMSec"); is(B(b), W(x) * 1000000, "fromMSec");
  is(B(TimeSpan::createFromMSec(x)), W(x) * 1000000, "createFromMSec"); CHECK(b.toMSec() == x, "fromMSec/toMSec round trip: ", b.toMSec());
  is(B(c.fromUSec(x)), W(x) * 1000, "fromUSec");
  is(B(TimeSpan::createFromUSec(x)), W(x) * 1000, "createFromUSec"); CHECK(c.toUSec() == x, "fromUSec/toUSec round trip: ", c.toUSec());
}
static void two(int64_t s, int32_t n, int64_t s2, int32_t n2)
{
  g_ctx = cat("t=(", s, ",", n, ") u=(", s2, ",", n2, ")");
  TimeBase t(s, n), u(s2, n2);
  W a = val(t), b = val(u);
  { TimeBase x(t); ref(x += u, x, "+="); is(x, a + b, "TimeBase +="); }
  { TimeBase x(t); ref(x -= u, x, "-="); is(x, a - b, "TimeBase -="); }
  { TimeBase x(t); x += x; is(x, a + a, "TimeBase += itself"); TimeBase y(t); y -= y; is(y, 0, "TimeBase -= itself"); }
  TimeSpan p(s, n), q(s2, n2);
  { TimeSpan x(p); x += q; is(B(x), a + b, "TimeSpan +="); } { TimeSpan x(p); x -= q; is(B(x), a - b, "TimeSpan -="); }
  { TimeSpan x(p); x += x; is(B(x), a + a, "TimeSpan += itself"); TimeSpan y(p); y -= y; is(B(y), 0, "TimeSpan -= itself"); }
  is(B(p + q), a + b, "TimeSpan +"); is(B(p - q), a - b, "TimeSpan -");
  struct timespec ts = t.timespec(), us = u.timespec();
  TimeStamp T(ts), U(us);
  { TimeStamp x(T); x += q; is(B(x), a + b, "TimeStamp +="); } { TimeStamp x(T); x -= q; is(B(x), a - b, "TimeStamp -="); }
  is(B(T + q), a + b, "TimeStamp + TimeSpan"); is(B(q + T), a + b, "TimeSpan + TimeStamp"); is(B(T - q), a - b, "TimeStamp - TimeSpan"); is(B(T - U), a - b, "TimeStamp - TimeStamp");
#define CMP(x, y, w) CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparison of ", w, " ==", (x == y), " !=", (x != y), " <", (x < y), " >", (x > y), " <=", (x <= y), " >=", (x >= y))
  CMP(t, u, "TimeBase"); CMP(p, q, "TimeSpan"); CMP(T, U, "TimeStamp");
}
static void pt(int64_t usec)
{
  g_ctx = cat("ptime 1970-01-01 + usec=", usec);
  boost::posix_time::ptime p(boost::gregorian::date(1970, 1, 1), boost::posix_time::microseconds(usec));
  is(B(TimeStamp(p)), W(usec) * 1000, "TimeStamp(ptime)");
  TimeStamp t(5, 5); t = p; is(B(t), W(usec) * 1000, "TimeStamp = ptime");
}
static void clk()
{
  g_ctx = "clock";
  for (int i = 0; i < 50; ++i)
  {
    struct timespec a, b;
    clock_gettime(CLOCK_REALTIME, &a); TimeStamp t = TimeStamp::now(); clock_gettime(CLOCK_REALTIME, &b);
    W lo = W(a.tv_sec) * G + a.tv_nsec - 1000, hi = W(b.tv_sec) * G + b.tv_nsec;
    // a wall-clock step between the three readings would be no defect: only report a persistent disagreement
    if ((val(B(t)) >= lo && val(B(t)) <= hi && norm(B(t)))) break;
    if (i == 49) fail("now() disagrees with the clock");
  }
  for (uint64_t ms : {0ull, 1ull, 999ull, 1000ull, 1001ull, 123456789ull, 2147483648ull, 4294967296ull, 9999999999999ull})
    for (int i = 0;; ++i)
    {
      g_ctx = cat("futureMSec(", ms, ")");
      struct timespec a, b;
      clock_gettime(CLOCK_REALTIME, &a); TimeStamp t = TimeStamp::futureMSec(ms); clock_gettime(CLOCK_REALTIME, &b);
      W lo = W(a.tv_sec) * G + a.tv_nsec - 1000 + W(ms) * 1000000, hi = W(b.tv_sec) * G + b.tv_nsec + W(ms) * 1000000;
      if (val(B(t)) >= lo && val(B(t)) <= hi && norm(B(t))) break;
      if (i == 49) fail("futureMSec disagrees with the clock");
    }
  TimeStamp f(1, 1); TimeStamp n0 = TimeStamp::now(); TimeStamp g = f.fromNow(); CHECK(val(B(f)) - val(B(n0)) < 60 * G && val(B(n0)) - val(B(f)) < 60 * G && g == f, "fromNow");
  CHECK(B(TimeStamp::maxTime()).tbSec() == INT64_MAX && B(TimeStamp::maxTime()).tbNSec() == 999999999, "maxTime");
}
void h_model(const std::string&, const Model& m)
{
  int64_t s = int64_t(h_int(m, "t.s", h_int(m, "s"))), s2 = int64_t(h_int(m, "u.s"));
  int32_t n = int32_t(h_int(m, "t.n", h_int(m, "n"))), n2 = int32_t(h_int(m, "u.n"));
  if (m.count("usec")) { pt(int64_t(h_int(m, "usec"))); return; }
  if (m.count("x")) { conv(int64_t(h_int(m, "x"))); return; }
  one(s, n); two(s, n % 1000000000, s2, n2 % 1000000000);
}
void h_search(Rng& r, double until)
{
  const int64_t S[] = {0, 1, -1, 2, -2, 3, -3, 59, 60, 61, -60, -59, -61, 3599, 3600, 3601, -3600, 86399, 86400, 86401, -86400, -86401, 90061, 1000000, 2147483647, 2147483648ll, -2147483648ll, 4294967295ll, 4294967296ll, 1ll << 40, -(1ll << 40), (1ll << 60), -(1ll << 60)};
  const int32_t N[] = {0, 1, -1, 999, 1000, 1001, -999, -1000, 999999, 1000000, 1000001, -1000000, -999999, 499999999, 500000000, -500000000, 999999999, -999999999, 1000000000, -1000000000, 1000000001, -1000000001, 1999999999, -1999999999, 2000000000, -2000000000, 2147483647, -2147483647};
  for (int64_t s : S) for (int32_t n : N) one(s, n);
  for (int64_t s : S) for (int32_t n : N) { if (n >= 1000000000 || n <= -1000000000) continue; for (int64_t s2 : S) for (int32_t n2 : N) { if (n2 >= 1000000000 || n2 <= -1000000000) continue; if (h_now() > until) return; two(s, n, s2, n2); } }
  for (int64_t s : S) { conv(s); conv(s * 1000); conv(s + 999); conv(s * 7 + 1); }
  conv(INT64_MAX); conv(INT64_MIN); conv(INT64_MAX - 1); conv(INT64_MIN + 1);
  for (int64_t u : {0ll, 1ll, 500000ll, 999999ll, 1000000ll, 1000001ll, 1577836800500000ll, 1577836800999999ll, 4102444800123456ll, 86400000000ll}) pt(u);
  clk();
  while (h_now() < until - 5)
  {
    for (int i = 0; i < 1000; ++i)
    {
      int64_t s = int64_t(r.next()) >> r.range(2, 63), s2 = int64_t(r.next()) >> r.range(2, 63);
      int32_t n = int32_t(r.range(-2147483647, 2147483647)), n2 = int32_t(r.range(-999999999, 999999999)), n3 = int32_t(r.range(-999999999, 999999999));
      one(s, n); two(s >> 1, n3, s2 >> 1, n2); two(s >> 1, n3, s >> 1, n2); conv(int64_t(r.next()) >> r.range(0, 63)); pt(int64_t(r.below(9000000000000000ull)));
    }
  }
}
