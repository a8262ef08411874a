// native search for C28: the texts of a time name it, the texts are read back, no text leads outside, threads do not mix their texts
#include "h.h"
#include <ctime>
#include <thread>
#include <atomic>
#include <icl_core/TimeStamp.h>
using icl_core::TimeStamp; using icl_core::String;
static const int64_t LAST = 253402300800ll;
struct Civil { int Y, m, d, H, M, S; };
static int64_t days(int64_t y, int m, int d)           // civil calendar, by counting from March
{
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
static Civil civil(int64_t s)
{
  Civil c; int64_t day = s / 86400, r = s % 86400;
  if (r < 0) { r += 86400; --day; }
  c.H = int(r / 3600); c.M = int(r / 60 % 60); c.S = int(r % 60);
  int64_t y = 1970 + day / 366;
  while (days(y + 1, 1, 1) <= day) ++y;
  c.Y = int(y); c.m = 1;
  while (c.m < 12 && days(y, c.m + 1, 1) <= day) ++c.m;
  c.d = int(day - days(y, c.m, 1)) + 1;
  return c;
}
static Civil local(int64_t s) { time_t t = time_t(s); struct tm r; localtime_r(&t, &r); Civil c = {r.tm_year + 1900, r.tm_mon + 1, r.tm_mday, r.tm_hour, r.tm_min, r.tm_sec}; return c; }
static std::string ext(const Civil& c) { char b[80]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", c.Y, c.m, c.d, c.H, c.M, c.S); return b; }
static std::string basic(const Civil& c, int ns) { char b[80]; snprintf(b, sizeof b, "%04d%02d%02dT%02d%02d%02d,%09d", c.Y, c.m, c.d, c.H, c.M, c.S, ns); return b; }
static void texts(int64_t s, int ns)
{
  g_ctx = cat("time ", s, " s ", ns, " ns");
  TimeStamp t; t.secs = s; t.nsecs = ns;
  int64_t fs = ns < 0 ? s - 1 : s; int fn = ns < 0 ? ns + 1000000000 : ns;
  if (s >= 0 && s < LAST) CHECK(t.formatIso8601UTC() == ext(civil(s)), "UTC text '", t.formatIso8601UTC(), "', '", ext(civil(s)), "' expected");
  Civil l = local(s), lf = local(fs);
  if (l.Y >= 1970 && l.Y <= 9999) CHECK(t.formatIso8601() == ext(l), "local text '", t.formatIso8601(), "', '", ext(l), "' expected");
  if (lf.Y >= 1970 && lf.Y <= 9999) CHECK(t.formatIso8601Basic() == basic(lf, fn), "basic local text '", t.formatIso8601Basic(), "', '", basic(lf, fn), "' expected");
  if (fs < 0 || fs >= LAST) return;
  std::string b = basic(civil(fs), fn);
  CHECK(t.formatIso8601BasicUTC() == b, "basic UTC text '", t.formatIso8601BasicUTC(), "', '", b, "' expected");
  TimeStamp u = TimeStamp::fromIso8601BasicUTC(t.formatIso8601BasicUTC());
  CHECK(u.secs == s && u.nsecs == ns, "read back as ", u.secs, " s ", u.nsecs, " ns");
}
static void shorter(Rng& r)
{
  static const int DM[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  Civil c; c.Y = int(r.below(3) ? r.range(1970, 2500) : r.range(1970, 9999)); if (r.below(4) == 0) c.Y = int(r.range(20, 99)) * 100;
  c.m = int(r.range(1, 12)); bool leap = c.Y % 400 == 0 || (c.Y % 4 == 0 && c.Y % 100);
  c.d = int(r.range(1, DM[c.m - 1] + (leap && c.m == 2))); c.H = int(r.below(24)); c.M = int(r.below(60)); c.S = int(r.below(60));
  int ns = int(r.below(3) ? r.below(1000000000) : r.below(10));
  static const int cut[] = {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 25, 30};
  size_t n = size_t(cut[r.below(22)]);
  std::string s = basic(c, ns) + "12345";
  s = s.substr(0, n);
  g_ctx = cat("text '", s, "'");
  if (n < 4) c.Y = 1970;
  if (n < 6) c.m = 1;
  if (n < 8) c.d = 1;
  if (n < 11) c.H = 0;
  if (n < 13) c.M = 0;
  if (n < 15) c.S = 0;
  if (n <= 16) ns = 0;
  else { int q = 1; for (size_t i = n - 16; i < 9; ++i) q *= 10; ns -= ns % q; }
  int64_t want = 86400 * days(c.Y, c.m, c.d) + 3600 * c.H + 60 * c.M + c.S;
  TimeStamp u = TimeStamp::fromIso8601BasicUTC(s);
  CHECK(u.secs == want && u.nsecs == ns, "read as ", u.secs, " s ", u.nsecs, " ns, ", want, " s ", ns, " ns expected");
}
static void junk(Rng& r)
{
  static const char al[] = "0123456789999T,-+ x";
  std::string s; size_t n = r.below(30);
  for (size_t i = 0; i < n; ++i) s += r.below(12) ? char('0' + r.below(10)) : al[r.below(sizeof al - 1)];
  if (n > 8) s[8] = 'T';
  if (n > 15) s[15] = ',';
  if (n > 0 && r.coin()) s[0] = '1';
  g_ctx = cat("text '", s, "'");
  try { TimeStamp u = TimeStamp::fromIso8601BasicUTC(s); CHECK(u.nsecs > -1000000000 && u.nsecs < 1000000000, "fraction out of range"); } catch (const std::exception&) {}
}
static void buffers(Rng& r)
{
  TimeStamp t; t.secs = int64_t(r.next()); if (r.coin()) t.secs = int64_t(r.below(uint64_t(LAST)) * 3); t.nsecs = 0;
  if (r.below(6) == 0) t = TimeStamp::maxTime();
  size_t n = r.below(24);
  char* d = (char*)malloc(n + 8); memset(d, 'x', n + 8);
  bool utc = r.coin();
  g_ctx = cat("time ", t.secs, " s into ", n, " characters");
  if (utc) t.strfTime(d, n, "%Y-%m-%d %H:%M:%S"); else t.strfLocaltime(d, n, "%Y-%m-%d %H:%M:%S");
  for (size_t i = n; i < n + 8; ++i) CHECK(d[i] == 'x', "characters behind the buffer are written");
  if (n > 0) CHECK(memchr(d, 0, n) != 0, "the text is not terminated");
  free(d);
  String a = t.formatIso8601UTC(), b = t.formatIso8601(), c = t.formatIso8601Basic(), e = t.formatIso8601BasicUTC();
  CHECK(a.size() < 20 && b.size() < 20 && c.size() < 27 && e.size() < 27, "texts of ", a.size(), " ", b.size(), " ", c.size(), " ", e.size(), " characters");
}
static void threads(Rng& r, int n)
{
  g_ctx = "two threads write the text of two times";
  int64_t s[2] = {int64_t(r.below(1000000000)), int64_t(1000000000 + r.below(3000000000u))};
  std::string want[2][3];
  for (int i = 0; i < 2; ++i) { want[i][0] = basic(civil(s[i]), 7); want[i][1] = ext(local(s[i])); want[i][2] = ext(civil(s[i])); }
  std::atomic<int> bad(0), go(0);
  std::thread th[2];
  for (int i = 0; i < 2; ++i)
    th[i] = std::thread([&, i] {
      TimeStamp t; t.secs = s[i]; t.nsecs = 7;
      ++go; while (go < 2) {}
      for (int k = 0; k < n && !bad; ++k)
      {
        if (t.formatIso8601BasicUTC() != want[i][0]) bad = 1;
        else if (t.formatIso8601() != want[i][1]) bad = 2;
        else if (t.formatIso8601UTC() != want[i][2]) bad = 3;
      }
    });
  for (int i = 0; i < 2; ++i) th[i].join();
  CHECK(bad == 0, "a thread gets a text that is not the one of its time (form ", bad.load(), ")");
}
static const char* ZONES[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
static void zone(int i) { setenv("TZ", ZONES[i], 1); tzset(); }
void h_model(const std::string&, const Model& m)
{
  zone(0);
  if (m.count("seconds"))
  {
    int64_t s = int64_t(h_int(m, "seconds")); int n = int(h_int(m, "nanoseconds"));
    if (n > -1000000000 && n < 1000000000 && (s == 0 || n == 0 || (s > 0) == (n > 0))) texts(s, n);
  }
}
void h_search(Rng& r, double until)
{
  zone(0);
  const int64_t edge[] = {0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782400, 951868799, 951868800, 946684799, 946684800, 4107542400ll, 4107542399ll, LAST - 1, LAST - 86400, 68169600, 68255999};
  for (int z = 0; z < 5; ++z)
  {
    zone(z);
    for (int64_t e : edge) { texts(e, 0); texts(e, 999999999); texts(e, 1); }
    texts(0, -1); texts(-1, -1); texts(-5, 0); texts(0, -999999999);
  }
  threads(r, 3000);
  for (uint64_t k = 0; k < 400000 && h_now() < until; ++k)
  {
    if (k % 1000 == 0) zone(int(r.below(5)));
    int64_t s = int64_t(r.coin() ? r.below(uint64_t(LAST)) : r.below(4000000000u));
    if (r.below(4) == 0) s = s / 86400 * 86400 + (r.coin() ? -1 : 0);
    if (s < 0) s = 0;
    texts(s, int(r.below(3) ? r.below(1000000000) : r.below(20)));
    shorter(r);
    junk(r);
    if (k % 4 == 0) buffers(r);
    if (k % 20000 == 1999) threads(r, 200000);
  }
}
