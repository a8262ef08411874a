#define L_MUTEX
#include "locks.h"
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/ScopedMutexLock.h>
#include <thread>
using namespace icl_core::thread;
void h_model(const std::string&, const Model&) { Rng r(1); h_search(r, h_now() + 3); }
void h_search(Rng& r, double until)
{
  // real recursion and exclusion
  {
    g_ctx = "lock twice, try once more, unlock three times";
    alarm(30);
    Mutex m; CHECK(m.lock(), "first lock"); CHECK(m.tryLock(), "the owner locks again"); CHECK(m.lock(icl_core::TimeSpan(0, 1000)), "the owner locks a third time");
    bool other = true;
    for (int i = 0; i < 3; ++i) { std::thread t([&] { other = m.tryLock(); if (other) m.unlock(); }); t.join(); CHECK(!other, "another thread acquires a mutex that is owned"); m.unlock(); }
    std::thread t([&] { other = m.tryLock(); if (other) m.unlock(); }); t.join(); CHECK(other, "an unlocked mutex is not available");
    { ScopedMutexLock s(m); std::thread u([&] { other = m.tryLock(); if (other) m.unlock(); }); u.join(); CHECK(!other && s.isLocked(), "a scoped lock does not lock"); }
    std::thread u([&] { other = m.tryLock(); if (other) m.unlock(); }); u.join(); CHECK(other, "a scoped lock stays locked");
    alarm(0);
  }
  for (int it = 0; it < 3000 && h_now() < until; ++it)
  {
    alarm(30);
    Mutex m;
    block("lock()", 0, r, EAGAIN, [&] { return m.lock(); });
    tryit("tryLock()", 0, r, [&] { return m.tryLock(); });
    absol("lock", 0, r, [&](const icl_core::TimeStamp& t) { return m.lock(t); });
    relat("lock", 0, r, [&](const icl_core::TimeSpan& t) { return m.lock(t); });
    R.start(0, 0); g_ctx = "unlock"; m.unlock(); { Rec x = R; R.on = false; CHECK(x.rel == 1 && x.acq == -1, "unlock releases ", x.rel, " times"); }
    bool force = r.coin();
    R.start(r.below(4), EAGAIN); g_ctx = cat("scoped lock, force=", force, ", refused ", R.fails, " times");
    bool locked; int held, rel;
    { ScopedMutexLock s(m, force); locked = s.isLocked(); held = R.acq; rel = R.rel; CHECK((R.on = false, bool(s) == locked), "conversion to bool differs from isLocked"); R.on = true; }
    Rec x = R; R.on = false;
    CHECK(held == (locked ? 1 : 0) && rel == 0, "isLocked=", locked, " while held ", held, " times");
    CHECK(locked || (!force && x.refused), "not locked although not refused or enforced");
    CHECK(x.acq == 0 && x.rel == held, "held ", held, ", released ", x.rel, " times");
  }
  alarm(0);
}
