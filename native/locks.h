// scripted stand-ins for the POSIX lock calls: they record what the code under test asks for and answer as scripted (no real waiting)
#pragma once
#include "h.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <icl_core/TimeStamp.h>
struct Rec
{
  bool on = false;
  int fails = 0, err = 0;          // the next `fails` acquisitions fail with `err`, later ones succeed
  int acq = 0, racq = 0, wacq = 0, rel = 0, refused = 0, timed = 0, busy = 0, waited = 0;
  std::vector<__int128> dl;
  void start(int f, int e) { *this = Rec(); fails = f; err = e; on = true; }
};
static thread_local Rec R;
static int take(int mode)          // 0: success
{
  if (R.fails > 0) { --R.fails; return R.err; }
  ++R.acq; if (mode == 1) ++R.racq; if (mode == 2) ++R.wacq;
  return 0;
}
static int a_block(int mode) { ++R.waited; int r = take(mode); if (r) ++R.refused; return r; }
static int a_try(int mode) { int r = take(mode); if (r) ++R.busy; return r; }
static int a_timed(int mode, const timespec* t)
{
  ++R.waited; R.dl.push_back(__int128(t->tv_sec) * 1000000000 + t->tv_nsec);
  if (t->tv_sec >= 0 && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) { ++R.timed; return EINVAL; }
  int r = take(mode); if (r) ++R.timed; return r;
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define FWD(ret, name, args, call, fake) extern "C" ret name args { if (R.on) return fake; static ret (*f) args = real<ret (*) args>(#name); return f call; }
static int a_rel() { --R.acq; ++R.rel; return 0; }
#ifdef L_MUTEX
FWD(int, pthread_mutex_lock, (pthread_mutex_t* m), (m), a_block(0))
FWD(int, pthread_mutex_trylock, (pthread_mutex_t* m), (m), a_try(0))
FWD(int, pthread_mutex_timedlock, (pthread_mutex_t* m, const timespec* t), (m, t), a_timed(0, t))
FWD(int, pthread_mutex_unlock, (pthread_mutex_t* m), (m), a_rel())
#endif
#ifdef L_RW
FWD(int, pthread_rwlock_rdlock, (pthread_rwlock_t* m), (m), a_block(1))
FWD(int, pthread_rwlock_wrlock, (pthread_rwlock_t* m), (m), a_block(2))
FWD(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t* m), (m), a_try(1))
FWD(int, pthread_rwlock_trywrlock, (pthread_rwlock_t* m), (m), a_try(2))
FWD(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t* m, const timespec* t), (m, t), a_timed(1, t))
FWD(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t* m, const timespec* t), (m, t), a_timed(2, t))
FWD(int, pthread_rwlock_unlock, (pthread_rwlock_t* m), (m), a_rel())
#endif
#ifdef L_SEM
static int se(int r) { if (r) { errno = r == EBUSY ? EAGAIN : r; return -1; } return 0; }
FWD(int, sem_wait, (sem_t* m), (m), se(a_block(0)))
FWD(int, sem_trywait, (sem_t* m), (m), se(a_try(0)))
FWD(int, sem_timedwait, (sem_t* m, const timespec* t), (m, t), se(a_timed(0, t)))
FWD(int, sem_post, (sem_t* m), (m), a_rel())
#endif
template <class T> static __int128 nsv(const T& t) { return __int128(t.tsSec()) * 1000000000 + t.tsNSec(); }
static __int128 clk() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return __int128(t.tv_sec) * 1000000000 + t.tv_nsec; }
// what every acquiring call has to satisfy; the deadline must lie in [lo, hi]
enum Kind { BLOCK, TRY, TIMED };
static void check_call(const std::string& w, Kind k, int mode, bool r, __int128 lo, __int128 hi)
{
  Rec x = R; R.on = false;
  CHECK(x.acq == (r ? 1 : 0) && x.rel == 0, w, " returned ", r, " after acquiring ", x.acq, " and releasing ", x.rel, " times");
  if (mode == 1) CHECK(x.racq == x.acq, w, " did not lock for reading");
  if (mode == 2) CHECK(x.wacq == x.acq, w, " did not lock for writing");
  if (k == BLOCK) CHECK(r || x.refused, w, " returned false although nothing was refused");
  if (k == TRY) { CHECK(r || x.busy, w, " returned false although the lock was available"); CHECK(!x.waited, w, " waits"); }
  if (k == TIMED)
  {
    CHECK(!x.refused, w, " waits without time-out");
    for (auto d : x.dl) CHECK(d >= lo && d <= hi, w, " waits until ", int64_t(d / 1000000000), ".", int64_t(d % 1000000000), " s, expected between ", int64_t(lo / 1000000000), ".", int64_t(lo % 1000000000), " and ", int64_t(hi / 1000000000), ".", int64_t(hi % 1000000000));
    if (!r && !x.timed) CHECK(clk() >= lo, w, " gave up too early");
  }
}
static icl_core::TimeSpan rspan(Rng& r)
{
  switch (r.below(6))
  {
    case 0: return icl_core::TimeSpan(0, 0);
    case 1: return icl_core::TimeSpan(0, r.range(0, 999999999));
    case 2: return icl_core::TimeSpan(r.range(0, 100000), r.range(0, 999999999));
    case 3: return icl_core::TimeSpan(0, -r.range(1, 999999999));
    case 4: return icl_core::TimeSpan(-r.range(1, 100000), -r.range(0, 999999999));
    default: return icl_core::TimeSpan(r.range(0, 3), 999999999 - r.range(0, 2));
  }
}
static icl_core::TimeStamp rstamp(Rng& r)
{
  icl_core::TimeStamp n = icl_core::TimeStamp::now();
  if (r.coin()) n += icl_core::TimeSpan(r.range(0, 1000), r.range(0, 999999999)); else n -= icl_core::TimeSpan(r.range(0, 1000), r.range(0, 999999999));
  return n;
}
static const __int128 YEAR = __int128(365) * 86400 * 1000000000;
template <class F> static void block(const char* w, int mode, Rng& r, int err, F f)
{
  R.start(r.below(3), err); g_ctx = cat(w, ", the first ", R.fails, " lock calls are refused with error ", err);
  bool b = f(); check_call(w, BLOCK, mode, b, 0, 0);
}
template <class F> static void tryit(const char* w, int mode, Rng& r, F f)
{
  static const int E[] = {EBUSY, EBUSY, EDEADLK, EAGAIN};
  R.start(r.below(2), E[r.below(4)]); g_ctx = cat(w, R.fails ? cat(", not available (error ", R.err, ")") : std::string(", available"));
  bool b = f(); check_call(w, TRY, mode, b, 0, 0);
}
static int timed_error(int mode, Rng& r) { return mode != 0 && r.below(4) == 0 ? EDEADLK : ETIMEDOUT; }   // the thread holds the read-write lock itself
template <class F> static void absol(const char* w, int mode, Rng& r, F f)
{
  icl_core::TimeStamp t = rstamp(r);
  R.start(r.below(3), timed_error(mode, r)); g_ctx = cat(w, " until ", t.tsSec(), " s ", t.tsNSec(), " ns, not available ", R.fails, " times (error ", R.err, ")");
  bool b = f(t); check_call(w, TIMED, mode, b, nsv(t), nsv(t));
}
template <class F> static void relat(const char* w, int mode, Rng& r, F f)
{
  icl_core::TimeSpan t = rspan(r);
  R.start(r.below(3), timed_error(mode, r)); g_ctx = cat(w, " for ", t.tsSec(), " s ", t.tsNSec(), " ns, not available ", R.fails, " times (error ", R.err, ")");
  __int128 v = nsv(t); if (v < 0) v = YEAR;
  __int128 a = clk(); bool b = f(t); __int128 z = clk();
  // the clock may be read through gettimeofday (microseconds)
  check_call(w, TIMED, mode, b, a + v - 1000, z + v + 1000);
}
