// native search for C25: several threads push messages to a log output that is started, shut down and restarted, with delays injected around the semaphore calls
#include "h.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <thread>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/Logging.h>
using icl_core::logging::LogOutputStream;
typedef icl_core::logging::LogLevel LL;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static std::atomic<int> d[8];
static std::atomic<bool> watch{false};
static thread_local int who = 0;          // 0: the test itself, 1: the worker, 2: threads that push
static void us(int i) { int n = d[i]; if (n > 0) usleep(n); }
extern "C" int sem_wait(sem_t* m)
{
  static auto g = real<int (*)(sem_t*)>("sem_wait");
  if (watch && who) us(who - 1);
  int r = g(m); if (watch && who) us(1 + who); return r;
}
extern "C" int sem_post(sem_t* m)
{
  static auto g = real<int (*)(sem_t*)>("sem_post");
  if (watch && who) us(3 + who);
  int r = g(m); if (watch) us(who == 0 ? 6 : 7); return r;
}
static const int N = 1024;
struct Rec { int level; long b, e; int written; long w; };
static Rec rec[N];
static std::atomic<long> clk;
static std::atomic<bool> busy, threaded;
static std::atomic<int> began, ended, n_written, next_of[8];
static std::atomic<bool> bad_ctx;
static thread_local int pushing = -1;
static int slow = 0;
struct Out : public LogOutputStream
{
  Out(LL l, bool w) : LogOutputStream("vcg", l, w) {}
  virtual ~Out() {}
  virtual void onStart() { who = 1; CHECK(threaded, "the start hook runs without a worker"); CHECK(++began == ended + 1, "the start hook runs a second time"); }
  virtual void onShutdown() { CHECK(++ended == began, "the shutdown hook runs a second time or before the start hook"); }
  virtual void pushImpl(const LogMessage& m)
  {
    CHECK(!busy.exchange(true), "two messages are written at the same time");
    int id = -1, p = -1, n = -1, lv = -1;
    CHECK(sscanf(m.message_text, "%d %d %d %d", &id, &p, &n, &lv) == 4 && id >= 0 && id < N, "a message that was not pushed is written: ", m.message_text);
    if (threaded) CHECK(who == 1 && began == ended + 1, "message ", id, " is written outside the worker or outside the hooks");
    else CHECK(pushing == id, "message ", id, " is written outside the push of this message");
    CHECK(m.log_level == LL(lv) && int(m.line) == id * 3 + 1 && cat("f", id) == m.filename && cat("c", p) == m.class_name && cat("o", n) == m.object_name && cat("fn", id) == m.function_name && cat("s", p) == m.log_stream, "message ", id, " is written with other values than those pushed");
    CHECK(++rec[id].written == 1, "message ", id, " is written twice");
    CHECK(lv >= rec[id].level, "message ", id, " of level ", lv, " is written although the level of the output is ", rec[id].level);
    CHECK(next_of[p] <= n, "message ", n, " of thread ", p, " is written after message ", int(next_of[p]) - 1);
    next_of[p] = n + 1;
    rec[id].w = ++clk;
    ++n_written;
    if (slow) usleep(slow);
    busy = false;
  }
};
static void give(Out* o, int id, int p, int n, int lv, int outlevel)
{
  std::string f = cat("f", id), c = cat("c", p), ob = cat("o", n), fn = cat("fn", id), s = cat("s", p), t = cat(id, " ", p, " ", n, " ", lv);
  rec[id].level = outlevel;
  rec[id].b = ++clk;
  pushing = id;
  o->push(LL(lv), s.c_str(), f.c_str(), id * 3 + 1, c.c_str(), ob.c_str(), fn.c_str(), t.c_str());
  pushing = -1;
  if (!threaded) CHECK(rec[id].written == (lv >= outlevel ? 1 : 0), "message ", id, " of level ", lv, " was ", lv >= outlevel ? "not " : "", "written when the push returned; level of the output ", outlevel);
  rec[id].e = ++clk;
}
static void reset_all() { memset(rec, 0, sizeof rec); clk = 0; began = ended = n_written = 0; busy = false; for (int i = 0; i < 8; ++i) next_of[i] = 0; }
static void order(int ids)
{
  for (int i = 0; i < ids; ++i) for (int j = 0; j < ids; ++j)
    if (rec[i].written && rec[j].written && rec[i].w < rec[j].w) CHECK(!(rec[j].e && rec[j].e < rec[i].b), "message ", i, " is written before message ", j, ", which had been pushed earlier");
}
static void scenario(Rng& r)
{
  static const int D[] = {0, 0, 0, 200, 1000, 3000};
  for (int i = 0; i < 8; ++i) d[i] = D[r.below(6)];
  reset_all();
  threaded = r.below(4) != 0;
  slow = r.coin() ? D[r.below(6)] : 0;
  int np = 1 + r.below(3), each = 1 + r.below(6), mode = r.below(3), pause = D[r.below(6)], gap = D[r.below(6)], level = r.below(6), rounds = 1 + r.below(2);
  g_ctx = cat(threaded ? "" : "no worker; ", np, " threads push ", each, " messages each, level of the output ", level, mode == 0 ? ", all pushed before the shutdown" : mode == 1 ? ", all written before the shutdown" : cat(", shutdown after ", pause, " us"), ", ", rounds, " rounds, delays");
  for (int i = 0; i < 8; ++i) g_ctx += cat(" ", int(d[i]));
  Out* o = new Out(LL(r.below(6)), threaded);
  o->setLogLevel(LL(level));
  CHECK(o->getLogLevel() == LL(level), "the level set is not the level told");
  int base = 0, pre = threaded && r.below(3) == 0 ? 1 + r.below(3) : 0;
  for (int i = 0; i < pre; ++i) give(o, base + i, 7, i, 5, level);   // pushed before the start
  base += pre;
  for (int k = 0; k < rounds; ++k)
  {
    o->start();
    watch = true;
    std::vector<std::thread> t;
    std::vector<int> lv(np * each);
    for (auto& x : lv) x = r.below(6);
    int b0 = base;
    const int* lp = lv.data();
    for (int p = 0; p < np; ++p) t.emplace_back([=] { who = 2; for (int n = 0; n < each; ++n) { give(o, b0 + p * each + n, p, k * each + n, lp[p * each + n], level); if (gap) usleep(gap); } });
    base += np * each;
    if (mode == 2) { if (pause) usleep(pause); }
    else
    {
      for (auto& x : t) x.join();
      t.clear();
      double t0 = h_now();
      if (mode == 1) for (int i = 0; i < base; ++i)
      {
        int l = i < pre ? 5 : i < b0 ? -1 : lv[i - b0];
        while (l >= level && !*(volatile int*)&rec[i].written) { CHECK(h_now() < t0 + 5, "message ", i, " is never written"); usleep(100); }
      }
    }
    long s = clk;
    std::vector<int> done(base);
    for (int i = 0; i < base; ++i) done[i] = *(volatile long*)&rec[i].e != 0;
    o->shutdown();
    if (threaded) CHECK(began == k + 1 && ended == k + 1, "the output is not shut down when the request returns");
    for (int i = 0; i < base; ++i)
    {
      int l = i < pre ? 5 : i < b0 ? -1 : lv[i - b0];
      if (done[i] && l >= level) CHECK(rec[i].written == 1, "message ", i, ", pushed before the shutdown, is not written when the shutdown returns");
    }
    (void)s;
    for (auto& x : t) x.join();
    watch = false;
  }
  if (threaded && mode == 2) { o->start(); o->shutdown(); }
  order(base);
  int was = n_written;
  usleep(threaded ? 0 : 100);
  CHECK(n_written == was, "a message is written after the shutdown");
  delete o;
}
static void stress(Rng& r)
{
  reset_all();
  threaded = true; slow = 0; watch = false;
  int n = 1000;
  g_ctx = cat("one thread pushes ", n, " messages, sometimes waiting until the worker has caught up");
  Out* o = new Out(LL(0), true);
  o->start();
  int k = 1 + r.below(6);
  for (int i = 0; i < n; ++i) { give(o, i, 0, i, i % 6, 0); if (i % k == 0) for (int j = 0; j < 2000 && n_written < i; ++j); }
  double t0 = h_now();
  while (n_written < n) { CHECK(h_now() < t0 + 5, "message ", int(n_written), " is never written"); usleep(100); }
  o->shutdown();
  delete o;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { icl_core::logging::initialize(); icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE); for (int i = 0; i < 20000 && h_now() < until; ++i) if (i % 20 == 7) stress(r); else scenario(r); }
