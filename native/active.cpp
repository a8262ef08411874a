// native search for C22: several threads hand operations over to an active object that is stopped meanwhile, with delays injected around the POSIX calls
#include "h.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <thread>
#include <icl_core_thread/ActiveObject.h>
#include <icl_core_logging/Logging.h>
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static std::atomic<int> d[8];
static std::atomic<bool> watch{false}, busy{false}, told{false}, done{false};
static thread_local int who = 0;          // 0: the test itself, 1: the thread of execution, 2: threads that hand operations over
static thread_local int holds = 0;
static void us(int i) { int n = d[i]; if (n > 0) usleep(n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
  static auto g = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (watch && who) us(who - 1);
  int r = g(m); if (watch && who) { if (r == 0) ++holds; us(1 + who); } return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
  static auto g = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = g(m); if (watch && who) { --holds; us(3 + who); } return r;
}
extern "C" int sem_post(sem_t* m)
{
  static auto g = real<int (*)(sem_t*)>("sem_post");
  if (watch && who == 2) us(6);
  int r = g(m); if (watch && who == 0) us(7); return r;
}
static const int N = 64;
static std::atomic<int> disposed[N], carried[N], began, ended, order_bad, dropped_early;
static std::atomic<int> last_done, seq, turn[N];
struct Act : public icl_core::thread::ActiveObject
{
  Act() : ActiveObject("vcg", 0) {}
  virtual ~Act() {}
  virtual void onThreadStart() { who = 1; CHECK(++began == 1 && ended == 0, "the start hook runs a second time"); }
  virtual void onThreadStop() { CHECK(++ended == 1, "the stop hook runs a second time"); }
  void give(icl_core::thread::ActiveOperation* o) { queue(o); }
};
static std::atomic<pthread_t> tid{0};
static int per = 1;
static std::atomic<int> next_of[8];
struct Op : public icl_core::thread::ActiveOperation
{
  int p, n, w;
  Op(int p, int n, int w) : p(p), n(n), w(w) {}
  int id() const { return p * 8 + n; }
  virtual void invoke()
  {
    CHECK(who == 1, "operation ", n, " of thread ", p, " is carried out in another thread");
    CHECK(!busy.exchange(true), "two operations are carried out at the same time");
    CHECK(began == 1 && ended == 0, "an operation is carried out outside the hooks");
    CHECK(holds == 0, "an operation is carried out while the queue is locked");
    CHECK(++carried[id()] == 1, "operation ", n, " of thread ", p, " is carried out twice");
    CHECK(disposed[id()] == 0, "operation ", n, " of thread ", p, " is carried out after its disposal");
    CHECK(next_of[p] <= n, "operation ", n, " of thread ", p, " is carried out after operation ", int(next_of[p]) - 1);
    next_of[p] = n + 1;
    if (w) usleep(w);
    busy = false;
  }
  virtual ~Op()
  {
    CHECK(++disposed[id()] == 1, "operation ", n, " of thread ", p, " is disposed of twice");
    CHECK(holds == 0, "an operation is disposed of while the queue is locked");
    CHECK(carried[id()] || told, "operation ", n, " of thread ", p, " is dropped without a stop request");
  }
};
static void scenario(Rng& r)
{
  static const int D[] = {0, 0, 0, 300, 1500, 4000};
  for (int i = 0; i < 8; ++i) d[i] = D[r.below(6)];
  for (int i = 0; i < N; ++i) disposed[i] = carried[i] = 0;
  for (int i = 0; i < 8; ++i) next_of[i] = 0;
  began = ended = 0; busy = told = done = false;
  int np = 1 + r.below(3), each = 1 + r.below(5), wait_first = r.below(3), pause = D[r.below(6)], gap = D[r.below(6)], w = r.coin() ? D[r.below(6)] : 0;
  g_ctx = cat(np, " threads hand over ", each, " operations each", wait_first == 0 ? ", all carried out before the stop request" : cat(", stopped after ", pause, " us"), ", delays");
  for (int i = 0; i < 8; ++i) g_ctx += cat(" ", int(d[i]));
  Act* a = new Act;
  Op* early = r.below(4) == 0 ? new Op(7, 0, 0) : 0;
  if (early) { told = true; a->give(early); CHECK(disposed[56] == 1 && carried[56] == 0, "an operation handed over to an object that is not running is not disposed of"); told = false; }
  CHECK(a->start(), "the object does not start");
  watch = true;
  std::vector<std::thread> t;
  for (int p = 0; p < np; ++p) t.emplace_back([=] { who = 2; for (int n = 0; n < each; ++n) { a->give(new Op(p, n, w)); CHECK(holds == 0, "the queue is left locked"); if (gap) usleep(gap); } });
  if (wait_first == 0)
  {
    for (auto& x : t) x.join();
    t.clear();
    double t0 = h_now();
    for (int p = 0; p < np; ++p) for (int n = 0; n < each; ++n) while (!disposed[p * 8 + n]) { CHECK(h_now() < t0 + 5, "operation ", n, " of thread ", p, " is never carried out"); usleep(100); }
  }
  else if (pause) usleep(pause);
  told = true;
  a->stop();
  double t0 = h_now();
  while (!ended) { CHECK(h_now() < t0 + 8, "the object does not end after a stop request"); usleep(100); }
  a->join();
  for (auto& x : t) x.join();
  watch = false;
  for (int p = 0; p < np; ++p) for (int n = 0; n < each; ++n) CHECK(disposed[p * 8 + n] == 1, "operation ", n, " of thread ", p, " is still there after the object has ended");
  CHECK(began == 1 && ended == 1, "the hooks ran ", int(began), " and ", int(ended), " times");
  delete a;
}
static std::atomic<int> s_ran{0}, s_live{0};
struct Small : public icl_core::thread::ActiveOperation { int n; explicit Small(int n) : n(n) { ++s_live; } virtual ~Small() { --s_live; } virtual void invoke() { CHECK(s_ran == n, "operation ", n, " is carried out as number ", int(s_ran)); ++s_ran; } };
static void stress(Rng& r)
{
  g_ctx = "one thread hands over 60000 operations, sometimes waiting until the object has caught up";
  began = ended = 0; s_ran = s_live = 0; told = true;
  Act* a = new Act;
  CHECK(a->start(), "the object does not start");
  int k = 1 + r.below(6), n = 60000;
  for (int i = 0; i < n; ++i) { a->give(new Small(i)); if (i % k == 0) for (int j = 0; j < 5000 && s_ran < i; ++j); }
  double t0 = h_now();
  while (s_ran < n) { CHECK(h_now() < t0 + 5, "operation ", int(s_ran), " is never carried out"); usleep(100); }
  a->stop();
  t0 = h_now();
  while (!ended) { CHECK(h_now() < t0 + 8, "the object does not end after a stop request"); usleep(100); }
  a->join();
  CHECK(s_live == 0, int(s_live), " operations were not disposed of");
  delete a;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { icl_core::logging::initialize(); icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE); for (int i = 0; i < 20000 && h_now() < until; ++i) if (i % 40 == 7) stress(r); else scenario(r); }
