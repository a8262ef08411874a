// native search for C24: the dispatch loop over scripted operations and waits, real threads for destruction, callback operations
#include "h.h"
#include <dlfcn.h>
#include <errno.h>
#include <atomic>
#include <vector>
#include <unistd.h>
#define private public
#define protected public
#include <icl_core_dispatch/PeriodicDispatchThread.h>
#undef private
#undef protected
#include <icl_core_dispatch/CallbackOperation.h>
#include <icl_core_logging/Logging.h>
#include <boost/bind.hpp>
using namespace icl_core;
static std::vector<int> log_; static bool on = false; static dispatch::PeriodicDispatchThread* cur; static int stop_at = -1; static bool stopped = false;
static void event(int k)
{
  CHECK(log_.size() < 5000, "the loop does not end after the stop request");
  log_.push_back(k);
  if (int(log_.size()) == stop_at) { cur->stop(); stopped = true; }
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
  static auto g = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  if (on) { event(-1); uint64_t one = 1; if (n >= 8) memcpy(p, &one, 8); return 8; }
  return g(fd, p, n);
}
struct Op : public dispatch::Operation { int id; Op(int i) : id(i) {} virtual ~Op() {} virtual void execute() { event(id); } };
static void loop(Rng& r)
{
  int n = r.below(5);
  std::vector<Op*> ops; dispatch::PeriodicDispatchThread t("vcg", TimeSpan(0, 1000000), 0);
  for (int i = 0; i < n; ++i) { ops.push_back(new Op(i)); t.addOperation(ops.back()); }
  std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i);
  if (n && r.below(4) == 0) { int k = r.below(n); t.addOperation(ops[size_t(k)]); order.push_back(k); }
  n = int(order.size());
  stop_at = 1 + r.below(4 * (n + 1)); stopped = false; log_.clear(); cur = &t;
  g_ctx = cat(n, " operations in the order"); for (int k : order) g_ctx += cat(" ", k); g_ctx += cat(", stop is requested during event ", stop_at, " (operations and waits counted)");
  static_cast<thread::Thread&>(t).makePeriodic();
  t.m_execute = true; on = true; alarm(30); static_cast<thread::Thread&>(t).run(); alarm(0); on = false; t.m_execute = false;
  CHECK(stopped, "the loop ended without a stop request after ", int(log_.size()), " events");
  // what is to be seen: rounds of all operations, a wait between rounds; a round that was begun is completed, nothing else after the stop
  std::vector<int> want;
  while (true)
  {
    for (int k : order) want.push_back(k);
    if (int(want.size()) >= stop_at) break;
    want.push_back(-1);
    if (int(want.size()) >= stop_at) break;
  }
  std::string a, b; for (int k : want) a += k < 0 ? " wait" : cat(" ", k); for (int k : log_) b += k < 0 ? " wait" : cat(" ", k);
  CHECK(want == log_, "events are", b, "; expected", a);
  for (Op* o : ops) delete o;
}
struct Slow : public dispatch::Operation { std::atomic<int> in{0}, runs{0}; virtual ~Slow() {} virtual void execute() { in = 1; ::usleep(3000); ++runs; in = 0; } };
static void destroy()
{
  g_ctx = "a dispatch thread with a slow operation is destroyed while it runs";
  Slow s; dispatch::PeriodicDispatchThread* t = new dispatch::PeriodicDispatchThread("vcg", TimeSpan(0, 1000000), 0);
  t->addOperation(&s); CHECK(t->start(), "it does not start");
  alarm(20); while (s.runs < 2) ::usleep(500); while (!s.in) {} delete t; alarm(0);
  int n = s.runs; CHECK(s.in == 0, "destroyed while an operation is carried out"); ::usleep(5000); CHECK(s.runs == n && s.in == 0, "an operation is carried out after the thread was destroyed");
}
struct F { int* p; int k; void operator()() const { *p = *p * 10 + k; } };
static void callback(Rng& r)
{
  g_ctx = "callback operation";
  int v = 0, k = 1 + r.below(9); boost::function<void ()> f = F{&v, k};
  dispatch::CallbackOperation o(f); f = F{&v, 0}; f.clear();
  CHECK(v == 0, "constructing calls the function"); dispatch::Operation& b = o; b.execute(); CHECK(v == k, "one execution left ", v, " instead of ", k); b.execute(); CHECK(v == 11 * k, "two executions left ", v);
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { logging::initialize(); logging::setLogLevel(logging::eLL_MUTE); for (int i = 0; i < 3000 && h_now() < until; ++i) { loop(r); callback(r); if (i % 300 == 0) destroy(); } }
