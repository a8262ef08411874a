#define L_RW
#include "locks.h"
#include <icl_core_thread/RWLock.h>
#include <icl_core_thread/ScopedRWLock.h>
#include <thread>
using namespace icl_core::thread;
void h_model(const std::string&, const Model&) { Rng r(1); h_search(r, h_now() + 3); }
void h_search(Rng& r, double until)
{
  for (int it = 0; it < 3000 && h_now() < until; ++it)
  {
    alarm(30);
    RWLock m;
    block("readLock()", 1, r, EAGAIN, [&] { return m.readLock(); });
    tryit("tryReadLock()", 1, r, [&] { return m.tryReadLock(); });
    absol("readLock", 1, r, [&](const icl_core::TimeStamp& t) { return m.readLock(t); });
    relat("readLock", 1, r, [&](const icl_core::TimeSpan& t) { return m.readLock(t); });
    block("writeLock()", 2, r, EDEADLK, [&] { return m.writeLock(); });
    tryit("tryWriteLock()", 2, r, [&] { return m.tryWriteLock(); });
    absol("writeLock", 2, r, [&](const icl_core::TimeStamp& t) { return m.writeLock(t); });
    relat("writeLock", 2, r, [&](const icl_core::TimeSpan& t) { return m.writeLock(t); });
    R.start(0, 0); g_ctx = "unlock"; m.unlock(); { Rec x = R; R.on = false; CHECK(x.rel == 1 && x.acq == -1, "unlock releases ", x.rel, " times"); }
    bool force = r.coin(), wr = r.coin();
    R.start(r.below(4), EAGAIN); g_ctx = cat("scoped ", wr ? "write" : "read", " lock, force=", force, ", refused ", R.fails, " times");
    bool locked; int held, rel;
    { ScopedRWLock s(m, wr ? ScopedRWLock::eLM_WRITE_LOCK : ScopedRWLock::eLM_READ_LOCK, force); locked = s.isLocked(); held = R.acq; rel = R.rel;
      CHECK((R.on = false, (wr ? R.wacq : R.racq) == held), "locked in the wrong mode"); CHECK(bool(s) == locked, "conversion to bool differs from isLocked"); R.on = true; }
    Rec x = R; R.on = false;
    CHECK(held == (locked ? 1 : 0) && rel == 0, "isLocked=", locked, " while held ", held, " times");
    CHECK(locked || (!force && x.refused), "not locked although not refused or enforced");
    CHECK(x.acq == 0 && x.rel == held, "held ", held, ", released ", x.rel, " times");
    g_ctx = "real lock: two readers, then a writer";
    bool o1 = false, o2 = true;
    CHECK(m.readLock(), "read lock"); std::thread t([&] { o1 = m.tryReadLock(); if (o1) m.unlock(); o2 = m.tryWriteLock(); if (o2) m.unlock(); }); t.join();
    CHECK(o1 && !o2, "beside a reader: another reader ", o1, ", a writer ", o2); m.unlock();
    CHECK(m.tryWriteLock(), "write lock"); std::thread u([&] { o1 = m.tryReadLock(); if (o1) m.unlock(); o2 = m.tryWriteLock(); if (o2) m.unlock(); }); u.join();
    CHECK(!o1 && !o2, "beside a writer: a reader ", o1, ", another writer ", o2); m.unlock();
  }
  alarm(0);
}
