#define L_SEM
#include "locks.h"
#include <icl_core_thread/Sem.h>
#include <icl_core_logging/Semaphore.h>
#include <icl_core_logging/ScopedSemaphore.h>
void h_model(const std::string&, const Model&) { Rng r(1); h_search(r, h_now() + 3); }
void h_search(Rng& r, double until)
{
  for (int it = 0; it < 3000 && h_now() < until; ++it)
  {
    alarm(30);
    {
      size_t n = r.below(20), c = n; g_ctx = cat("real semaphore with initial count ", n);
      icl_core::thread::Semaphore m(n);
      for (size_t i = 0; i < 12; ++i) { if (r.coin()) { m.post(); ++c; } else { bool b = m.tryWait(); CHECK(b == (c > 0), "tryWait at count ", c, " gives ", b); if (b) --c; } }
      for (; c; --c) CHECK(m.tryWait(), "count too low");
      CHECK(!m.tryWait(), "count too high");
    }
    icl_core::thread::Semaphore m(0);
    block("wait()", 0, r, EINTR, [&] { return m.wait(); });
    tryit("tryWait()", 0, r, [&] { return m.tryWait(); });
    absol("wait", 0, r, [&](const icl_core::TimeStamp& t) { return m.wait(t); });
    relat("wait", 0, r, [&](const icl_core::TimeSpan& t) { return m.wait(t); });
    R.start(0, 0); g_ctx = "post"; m.post(); { Rec x = R; R.on = false; CHECK(x.rel == 1 && x.acq == -1, "post increments ", x.rel, " times"); }
    icl_core::logging::Semaphore l(r.below(3));
    block("logging wait()", 0, r, EINTR, [&] { return l.wait(); });
    R.start(0, 0); g_ctx = "logging post"; l.post(); { Rec x = R; R.on = false; CHECK(x.rel == 1 && x.acq == -1, "post increments ", x.rel, " times"); }
    R.start(r.below(3), EINTR); g_ctx = cat("scoped semaphore, refused ", R.fails, " times");
    bool locked; int held, rel;
    { icl_core::logging::ScopedSemaphore s(l); locked = s.isDecremented(); held = R.acq; rel = R.rel; }
    Rec x = R; R.on = false;
    CHECK(held == (locked ? 1 : 0) && rel == 0, "isDecremented=", locked, " while held ", held, " times");
    CHECK(locked || x.refused, "not taken although not refused");
    CHECK(x.acq == 0 && x.rel == held, "taken ", held, ", given back ", x.rel, " times");
  }
  alarm(0);
}
