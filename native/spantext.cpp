// native search for C32: the text of a time span is a sign and amounts with units, whose sum is the span
#include "h.h"
#include <icl_core/TimeSpan.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingMacros_SLOGGING.h>
using namespace icl_core::logging;
typedef __int128 W;
struct Out : public LogOutputStream
{
  std::string text;
  Out() : LogOutputStream("vcg", eLL_TRACE, false) { setLogLevel(eLL_TRACE); }
  virtual ~Out() {}
  virtual void pushImpl(const LogMessage& m) { text += m.message_text; }
};
static LogStream* s;
static Out* o;
static void read(const std::string& t, W v, const char* where)
{
  static const struct { const char* u; int64_t f; } U[] = {{"h", 3600000000000ll}, {"m", 60000000000ll}, {"s", 1000000000ll}, {"ms", 1000000ll}, {"us", 1000ll}, {"ns", 1ll}};
  size_t p = 0;
  bool neg = t.size() && t[0] == '-';
  if (neg) p = 1;
  int last = -1;
  W sum = 0;
  CHECK(p < t.size(), where, ": the text is '", t, "'");
  while (p < t.size())
  {
    W n = 0;
    size_t d = p, u;
    while (p < t.size() && t[p] >= '0' && t[p] <= '9') n = n * 10 + (t[p++] - '0');
    CHECK(p > d, where, ": there is no amount at character ", d, " of the text '", t, "'");
    u = p;
    while (p < t.size() && t[p] >= 'a' && t[p] <= 'z') ++p;
    int k = 0;
    while (k < 6 && t.substr(u, p - u) != U[k].u) ++k;
    CHECK(k < 6 && k > last, where, ": the unit at character ", u, " of the text '", t, "' is not a smaller unit");
    last = k;
    sum += n * U[k].f;
  }
  CHECK((neg ? -sum : sum) == v, where, ": the text is '", t, "', which is another span");
}
static void one(int64_t sec, int64_t ns)
{
  W v = W(sec) * 1000000000 + ns;
  g_ctx = cat("span of ", sec, " s ", ns, " ns");
  icl_core::TimeSpan t(sec, int32_t(ns));
  std::ostringstream x;
  x << t;
  read(x.str(), v, "to a stream");
  o->text = "";
  SLOGGING_ERROR((*s), t << icl_core::logging::flush);
  read(o->text, v, "to a log");
}
void h_model(const std::string&, const Model& m)
{
  s = new LogStream("mine", eLL_TRACE);
  o = new Out;
  s->addOutputStream(o);
  int64_t a = int64_t(h_int(m, "seconds")), b = int64_t(h_int(m, "nanoseconds"));
  if (b <= -1000000000 || b >= 1000000000 || (a < 0 && b > 0) || (a > 0 && b < 0)) return;
  one(a, b);
}
void h_search(Rng& r, double until)
{
  s = new LogStream("mine", eLL_TRACE);
  o = new Out;
  s->addOutputStream(o);
  static const int64_t E[] = {0, 1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 3660, 7199, 7200, 86399, 86400, 86401, 90061, 604800, 2147483647ll, 2147483648ll, 4294967296ll, 7730941132800ll, 1ll << 61};
  static const int64_t N[] = {0, 1, 999, 1000, 1001, 999000, 999999, 1000000, 1000001, 1001000, 5000000, 999000000, 999999000, 999999999, 100000, 500000000, 123456789, 123456000, 123000000};
  for (int64_t e : E) for (int64_t n : N) { one(e, n); one(-e, -n); }
  for (int i = 0; i < 200000 && h_now() < until; ++i)
  {
    int64_t e, n;
    switch (r.below(5)) { case 0: e = E[r.below(23)]; break; case 1: e = 60 * r.below(200); break; case 2: e = 3600 * r.below(200); break; case 3: e = r.below(100000); break; default: e = int64_t(r.next() >> (3 + r.below(60))); }
    switch (r.below(5)) { case 0: n = N[r.below(19)]; break; case 1: n = 1000 * r.below(1000000); break; case 2: n = 1000000 * r.below(1000); break; case 3: n = r.below(2000); break; default: n = r.below(1000000000); }
    if (r.coin()) { e = -e; n = -n; }
    one(e, n);
  }
}
