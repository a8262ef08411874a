// native search for C23: real periodic threads and the emulation over scripted timer and clock calls
#include "h.h"
#include <dlfcn.h>
#include <errno.h>
#include <atomic>
#include <set>
#include <sys/timerfd.h>
#include <sys/time.h>
#include <time.h>
#define private public
#define protected public
#include <icl_core_thread/PeriodicThread.h>
#include <icl_core_thread/PeriodicThreadImplEmulate.h>
#undef private
#undef protected
#include <icl_core_logging/Logging.h>
using namespace icl_core;
typedef __int128 L;
static bool on = false;                    // scripted calls
static int s_create = 0, s_eintr = 0, s_zero = 0;      // failures to come
static std::set<int> timers;
static int nextfd = 100000, expired = 0, arms = 0, lastfd = -1, eintr_seen = 0;
static itimerspec last; static int arms_of = -1;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int timerfd_create(int clk, int)
{
  CHECK(!on || clk == CLOCK_MONOTONIC, "the timer depends on the setting of the clock");
  if (s_create > 0) { --s_create; errno = EMFILE; return -1; }
  if (on && s_zero && !timers.count(0)) { timers.insert(0); return 0; }   // the first free number, if standard input is closed
  timers.insert(++nextfd); return nextfd;
}
extern "C" int timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec*)
{
  if (!timers.count(fd)) { errno = EBADF; return -1; }
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
  CHECK(fl == 0, "the timer is not armed relative to now"); last = *n; lastfd = arms_of = fd; ++arms; return 0;
}
extern "C" int timerfd_gettime(int fd, itimerspec* o)
{
  if (!timers.count(fd)) { errno = EBADF; return -1; }
  if (fd == lastfd && arms_of == fd) *o = last; else memset(o, 0, sizeof *o);
  return 0;
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
  static auto g = real<ssize_t (*)(int, void*, size_t)>("read");
  if ((fd >= 100000 || timers.count(fd)) && on)
  {
    if (!timers.count(fd)) { errno = EBADF; return -1; }
    if (s_eintr > 0) { --s_eintr; ++eintr_seen; errno = EINTR; return -1; }
    uint64_t one = 1; memcpy(p, &one, 8); ++expired; return 8;
  }
  return g(fd, p, n);
}
extern "C" int close(int fd)
{
  static auto g = real<int (*)(int)>("close");
  if (fd >= 100000 || timers.count(fd)) { CHECK(timers.erase(fd) == 1, "a timer is closed that does not exist"); return 0; }
  return g(fd);
}
// the clock of the emulation
static bool fake = false;
static L now_ns = 0, slept = 0; static std::vector<L> jumps; static size_t jump = 0; static std::vector<L> readings;
extern "C" int gettimeofday(struct timeval* t, void*) noexcept
{
  if (!fake) { timespec x; clock_gettime(CLOCK_REALTIME, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; }
  if (jump < jumps.size()) now_ns += jumps[jump++]; else now_ns += 1000;
  if (now_ns < 0) now_ns = 0;
  now_ns = now_ns / 1000 * 1000;
  t->tv_sec = int64_t(now_ns / 1000000000); t->tv_usec = int64_t(now_ns % 1000000000) / 1000; readings.push_back(now_ns); return 0;
}
static L due = 0; static int cut = 0;
extern "C" int nanosleep(const timespec* q, timespec* r)
{
  static auto g = real<int (*)(const timespec*, timespec*)>("nanosleep");
  if (!fake) return g(q, r);
  L n = L(q->tv_sec) * 1000000000 + q->tv_nsec;
  CHECK(q->tv_sec >= 0 && q->tv_nsec >= 0 && q->tv_nsec < 1000000000, "sleeps for an invalid time");
  CHECK(!readings.empty(), "sleeps without reading the clock");
  CHECK(n <= due - readings.back(), "sleeps ", int64_t(n), " ns although only ", int64_t(due - readings.back()), " ns of the period are left");
  if (cut > 0 && n > 2) { --cut; L d = n / 2; now_ns += d; n -= d; if (r) { r->tv_sec = int64_t(n / 1000000000); r->tv_nsec = int64_t(n % 1000000000); } errno = EINTR; return -1; }
  now_ns += n; return 0;
}
struct W : public thread::PeriodicThread { W(const TimeSpan& p) : PeriodicThread("vcg", p, 0) {} virtual ~W() {} virtual void run() {} };
static TimeSpan rp(Rng& r)
{
  switch (r.below(5)) { case 4: return TimeSpan(0, r.range(1, 2000)); case 0: return TimeSpan(0, r.range(1, 999999999)); case 1: return TimeSpan(r.range(1, 5), 0); case 2: return TimeSpan(r.range(1, 100000), r.range(0, 999999999)); default: return TimeSpan(r.range(1, 3), 999999999); }
}
static void armed(const char* w, const TimeSpan& p, int n)
{
  CHECK(arms == n, w, ": the timer is armed ", arms, " times, expected ", n);
  if (n) { CHECK(timers.count(lastfd), w, ": a timer that does not exist is armed");
    CHECK(last.it_value.tv_sec == p.tsSec() && last.it_value.tv_nsec == p.tsNSec() && last.it_interval.tv_sec == p.tsSec() && last.it_interval.tv_nsec == p.tsNSec(), w, ": the timer runs with ", last.it_value.tv_sec, " s ", last.it_value.tv_nsec, " ns and interval ", last.it_interval.tv_sec, " s ", last.it_interval.tv_nsec, " ns instead of ", p.tsSec(), " s ", p.tsNSec(), " ns"); }
}
static void timerfd(Rng& r)
{
  TimeSpan p = rp(r);
  g_ctx = cat("periodic thread with period ", p.tsSec(), " s ", p.tsNSec(), " ns");
  on = true; s_create = s_eintr = 0; s_zero = r.below(5) == 0;
  CHECK(timers.empty(), "a timer is left over");
  W* w = new W(p);
  CHECK(timers.empty(), "a timer exists before the thread runs");
  bool has = false;
  for (int i = 0, n = r.below(7); i < n; ++i)
    switch (r.below(4))
    {
      case 0:
        s_create = r.below(4) == 0; g_ctx += s_create ? "; becomes periodic (no timer can be created)" : "; becomes periodic";
        { bool bad = s_create; arms = 0; static_cast<thread::Thread*>(w)->makePeriodic(); if (!bad) has = true; else has = !timers.empty(); s_create = 0; CHECK(timers.size() == (has ? 1 : 0), int(timers.size()), " timers exist"); armed("becoming periodic", p, has ? 1 : 0); }
        break;
      case 1:
        p = rp(r); g_ctx += cat("; period set to ", p.tsSec(), " s ", p.tsNSec(), " ns");
        { arms = 0; bool b = w->setPeriod(p); CHECK(b == has, "setting the period returned ", b, has ? " although the timer exists" : " although there is no timer"); armed("setting the period", p, has ? 1 : 0); CHECK(w->period() == p, "the period reported is not the one set"); }
        break;
      case 2:
        if (!has) break;
        s_eintr = r.below(3); g_ctx += cat("; waits, interrupted ", s_eintr, " times");
        expired = 0; w->waitPeriod(); s_eintr = 0;
        CHECK(expired == 1, "the wait ended after ", expired, " expiries of the timer");
        break;
      default:
        CHECK(w->period() == p, "the period reported is not the current one");
    }
  g_ctx += "; destroyed";
  delete w;
  CHECK(timers.empty(), int(timers.size()), " timers outlive the object");
  on = false;
}
static void emulation(Rng& r)
{
  TimeSpan p = rp(r);
  L P = L(p.tsSec()) * 1000000000 + p.tsNSec();
  thread::PeriodicThreadImplEmulate* e = new thread::PeriodicThreadImplEmulate(p);
  g_ctx = cat("emulation, period ", p.tsSec(), " s ", p.tsNSec(), " ns");
  fake = true; now_ns = L(1700000000) * 1000000000; L lastw = 0; 
  for (int i = 0; i < 6; ++i)
  {
    jumps.clear(); jump = 0; readings.clear();
    for (int k = r.below(4); k > 0; --k) jumps.push_back(r.below(3) == 0 ? -L(r.range(0, 4000000000LL)) : L(r.range(0, int64_t(P > 4000000000LL ? 4000000000LL : P))));
    L j0 = jumps.empty() ? 1000 : jumps[0]; L n0 = now_ns + j0; if (n0 < 0) n0 = 0; n0 = n0 / 1000 * 1000;
    due = n0 < lastw ? n0 + P : lastw + P;
    g_ctx += cat("; wait with clock steps"); for (L j : jumps) g_ctx += cat(" ", int64_t(j));
    cut = r.below(4) == 0 ? 1 + r.below(3) : 0; if (cut) g_ctx += cat(", interrupted ", cut, " times");
    alarm(20); e->waitPeriod(); alarm(0);
    bool seen = false; for (L x : readings) seen = seen || x >= due;
    CHECK(seen, "the wait ended ", int64_t(due - readings.back()), " ns before the end of the period");
    lastw = L(e->m_last_execution_time.tsSec()) * 1000000000 + e->m_last_execution_time.tsNSec();
    CHECK(lastw == readings.back(), "the next period does not begin when the wait ends");
    now_ns += r.range(0, 2000000000);
  }
  fake = false;
  delete e;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { logging::initialize(); logging::setLogLevel(logging::eLL_MUTE); for (int i = 0; i < 200000 && h_now() < until; ++i) { timerfd(r); emulation(r); } }
