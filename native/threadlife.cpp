// native search for C21: random histories of one controlling thread with delays injected around the POSIX calls
#include "h.h"
#include <dlfcn.h>
#include <pthread.h>
#include <atomic>
#include <new>
#include <errno.h>
#include <icl_core_thread/Thread.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/Thread.h>
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
using icl_core::TimeSpan;
using icl_core::TimeStamp;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static std::atomic<int> created{0}, joined{0}, refusals{0}, refused{0}, d_begin{0}, d_end{0}, d_lock{0}, d_unlock{0}, d_per{0}, live{0}, works{0}, runs{0}, job_begun{0}, job_done{0};
static std::atomic<bool> stop_begun{false}, stop_done{false};
static std::atomic<pthread_t> current{0};
static bool watch = false;
static thread_local bool worker = false;
static bool odd = false;
static std::atomic<double> ended_at{1e300};
static double clk() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Tr { void* (*f)(void*); void* a; };
static void ms(int n) { if (n) usleep(n * 1000); }
static void* tramp(void* p)
{
  Tr t = *(Tr*)p; delete (Tr*)p; worker = true;
  ms(d_begin); void* r = t.f(t.a); ms(d_end); ended_at = clk(); --live; return r;
}
extern "C" int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
  static auto g = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!watch || worker) return g(id, at, f, a);
  if (refusals > 0) { --refusals; ++refused; return EAGAIN; }
  ended_at = 1e300; ++created; ++live;
  int r = g(id, at, tramp, new Tr{f, a});
  current = *id;
  return r;
}
extern "C" int pthread_join(pthread_t id, void** r)
{
  static auto g = real<int (*)(pthread_t, void**)>("pthread_join");
  if (watch && !worker) { CHECK(created == joined + 1 && pthread_equal(id, current.load()), "a thread of execution is joined that does not exist or was joined already"); ++joined; }
  return g(id, r);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
  static auto g = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (worker) ms(d_lock);
  return g(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
  static auto g = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = g(m);
  if (worker) ms(d_unlock);
  return r;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
  static auto g = real<int (*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock");
  if (watch && !worker && odd) return EAGAIN;
  return g(m, t);
}
struct L : public icl_core::logging::Thread { L() : Thread(0) {} virtual ~L() {} virtual void makePeriodic() {} };
struct C : public icl_core::thread::Thread { C() : Thread("vcg", 0) {} virtual ~C() {} };
static bool timed_wait(C& w, const TimeStamp& t) { return w.wait(t); }
static bool timed_wait(L&, const TimeStamp&) { return true; }
static bool timed_wait(C& w, const TimeSpan& t) { return w.wait(t); }
static bool timed_wait(L&, const TimeSpan&) { return true; }
static bool plain_wait(C& w) { return w.wait(); }
static bool plain_wait(L&) { return true; }
template <class B> struct Wk : public B
{
  int kind = 0, len = 0;
  virtual ~Wk() {}
  using B::execute; using B::running;
  virtual void makePeriodic() { ms(d_per); }
  virtual void run()
  {
    ++works; CHECK(works == 1, "the work runs twice at the same time");
    int k = kind, l = len;
    bool e = execute(), s = stop_begun;
    CHECK(e || s, "the work begins without being told to execute");
    CHECK(running(), "the object is not running while its work is going on");
    ++runs; ++job_begun;
    double t0 = h_now();
    if (k == 1) ms(l);
    else if (k == 2)
      for (;;)
      {
        bool sd = stop_done; e = execute(); s = stop_begun;
        if (sd) CHECK(!e, "a stop request was lost");
        CHECK(e || s, "the work is told to stop without a request");
        if (!e || h_now() > t0 + 0.2) break;
        usleep(500);
      }
    ++job_done; --works;
  }
};
static void ended(const std::string& w, bool started)
{
  CHECK(joined == created, w, ": the thread of execution was not reclaimed");
  CHECK(live == 0, w, ": the thread of execution is still there");
  CHECK(job_done == runs && works == 0, w, ": the work is still going on");
  CHECK(runs == created, w, ": ", int(created), " threads of execution, ", int(runs), " runs of the work");
  (void)started;
}
template <class B> static void scenario(Rng& r)
{
  typedef Wk<B> W;
  const bool waits = !std::is_base_of<L, B>::value;
  static const int D[] = {0, 0, 0, 1, 4, 12};
  created = joined = refusals = refused = live = works = runs = job_begun = job_done = 0;
  alignas(W) char buf[sizeof(W)];
  W* w = new (buf) W;
  stop_begun = stop_done = false;
  watch = true;
  g_ctx = waits ? "new object" : "new thread object of the logging library";
  int n = r.range(1, 7);
  for (int i = 0; i < n; ++i)
  {
    int op = r.below(9); if (!waits && op >= 5 && op <= 7) op = 4;
    if (op <= 2)
    {
      int c0 = created, f0 = refused;
      int out0 = created - joined;
      if (out0 == 0 || !w->running())
      {
        d_begin = D[r.below(6)]; d_end = D[r.below(6)]; d_lock = D[r.below(6)]; d_unlock = D[r.below(6)]; d_per = D[r.below(6)];
        if (out0 == 0) { w->kind = r.below(3); w->len = D[r.below(6)]; stop_begun = stop_done = false; }
        else if (job_done != runs) { }
        else { stop_begun = stop_done = false; }
      }
      refusals = r.below(5) == 0;
      g_ctx += cat("; start (delays ", int(d_begin), " ", int(d_lock), " ", int(d_per), " ", int(d_unlock), " ", int(d_end), " ms, kind ", w->kind, " ", w->len, int(refusals) ? ", creation refused" : "", ")");
      bool b = w->start();
      refusals = 0;
      CHECK(created - c0 <= 1, "more than one thread of execution created");
      CHECK(created - joined <= 1, "an earlier thread of execution was not reclaimed");
      if (out0 == 0) CHECK(b == (created == c0 + 1), "start returned ", b, " after creating ", created - c0, " threads of execution");
      if (b) CHECK(created - joined == 1, "start succeeded without a thread of execution");
      if (!b) CHECK(created == c0, "start failed although a thread of execution was created");
      if (!b && refused == f0) CHECK(out0 == 1 && job_done == runs && runs == created, "start failed although nothing was refused");
    }
    else if (op == 3) { g_ctx += "; stop"; stop_begun = true; w->stop(); stop_done = true; if (created == joined) { stop_begun = stop_done = false; } }
    else if (op == 4) { g_ctx += "; join"; w->join(); ended("after joining", true); CHECK(!w->running(), "running after joining"); }
    else if (op == 5) { g_ctx += "; wait"; bool b = plain_wait(*w); CHECK(b, "waiting without limit failed"); ended("after waiting", true); CHECK(!w->running(), "running after waiting"); }
    else if (op == 6)
    {
      int m = int(r.range(-20, 40)); g_ctx += cat("; wait until ", m, " ms from now");
      TimeStamp t = TimeStamp::now(); double l = clk() + m * 1e-3;
      if (m >= 0) t += TimeSpan(0, m * 1000000); else t -= TimeSpan(0, -m * 1000000);
      odd = r.below(12) == 0; if (odd) g_ctx += " (the timed lock is refused)"; bool b = timed_wait(*w, t); double e = clk(); odd = false;
      if (b) { ended("after waiting with a limit", true); CHECK(!w->running(), "running after waiting"); }
      else { CHECK(e > l - 0.001, "gave up ", (l - e) * 1e3, " ms before the limit"); CHECK(!(ended_at < l - 0.002), "gave up although the thread of execution had ended ", (l - ended_at) * 1e3, " ms before the limit"); CHECK(created == joined + 1, "gave up although there was no thread of execution"); }
    }
    else if (op == 7)
    {
      int m = int(r.range(0, 40)); g_ctx += cat("; wait for ", m, " ms");
      double l = clk() + m * 1e-3;
      odd = r.below(12) == 0; if (odd) g_ctx += " (the timed lock is refused)"; bool b = timed_wait(*w, TimeSpan(0, m * 1000000)); double e = clk(); odd = false;
      if (b) { ended("after waiting with a limit", true); CHECK(!w->running(), "running after waiting"); }
      else { CHECK(e > l - 0.001, "gave up ", (l - e) * 1e3, " ms before the limit"); CHECK(!(ended_at < l - 0.002), "gave up although the thread of execution had ended ", (l - ended_at) * 1e3, " ms before the limit"); CHECK(created == joined + 1, "gave up although there was no thread of execution"); }
    }
    else ms(D[r.below(6)]);
  }
  while (runs < created) usleep(200);   // the work must have begun before the derived part of the object ends
  g_ctx += "; destroy";
  stop_begun = true;
  w->~W();
  ended("after destruction", true);
  watch = false;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { icl_core::logging::initialize(); icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE); for (int i = 0; i < 4000 && h_now() < until; ++i) if (i % 3) scenario<C>(r); else scenario<L>(r); }
