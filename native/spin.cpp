#include "h.h"
#include <icl_core/Noncopyable.h>
#include <icl_core_thread/ScopedSpinLock.h>
#include <thread>
#include <atomic>
using namespace icl_core::thread;
void h_model(const std::string&, const Model&) { Rng r(1); h_search(r, h_now() + 3); }
extern "C" void __tsan_on_report(void*) { const char m[] = "FAIL: two threads inside the lock, or the writes of the previous holder are not visible (data race report above); input: threads incrementing a counter under the lock\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
void h_search(Rng& r, double until)
{
  for (int it = 0; it < 300 && h_now() < until; ++it)
  {
    alarm(60);
    {
      SpinLock l; g_ctx = "one thread: tryLock on a free lock, tryLock on a held one, unlock, tryLock, unlock";
      CHECK(l.tryLock(), "tryLock on a free lock fails"); CHECK(!l.tryLock(), "tryLock on a held lock succeeds"); CHECK(!l.tryLock(), "tryLock on a held lock succeeds"); l.unlock();
      CHECK(l.tryLock(), "tryLock on a free lock fails after unlock"); l.unlock();
      CHECK(l.lock(), "lock() does not report success"); CHECK(!l.tryLock(), "tryLock on a locked lock succeeds"); l.unlock();
      { ScopedSpinLock s(l); CHECK(s.isLocked() && bool(s), "scoped lock not locked"); CHECK(!l.tryLock(), "the scoped lock does not lock"); }
      CHECK(l.tryLock(), "the scoped lock stays locked"); l.unlock();
    }
    SpinLock l; long n = 0; const int T = 3, N = 2000;
    g_ctx = "threads incrementing a counter under the lock";
    auto f = [&](int k) { for (int i = 0; i < N; ++i) { if (k == 0) { ScopedSpinLock s(l); ++n; } else if (k == 1) { l.lock(); ++n; l.unlock(); } else { while (!l.tryLock()) std::this_thread::yield(); ++n; l.unlock(); } } };
    std::thread a(f, 0), b(f, 1), c(f, 2); a.join(); b.join(); c.join();
    CHECK(n == long(T) * N, "counter is ", n, " instead of ", T * N);
  }
  alarm(0);
}
