// mechanical amalgamation of the translation units under contract (no code of its own)
#include "icl_core/Noncopyable.cpp"
#include "icl_core_thread/MutexImplPosix.cpp"
#include "icl_core_thread/RWLockImplPosix.cpp"
#include "icl_core_thread/SemaphoreImplPosix.cpp"
#include "icl_core_thread/Mutex.cpp"
#include "icl_core_thread/RWLock.cpp"
#include "icl_core_thread/Sem.cpp"
#include "icl_core_thread/ScopedMutexLock.cpp"
#include "icl_core_thread/ScopedRWLock.cpp"
#include "icl_core_thread/ScopedSpinLock.h"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" {
extern const unsigned long vcg_mutex = sizeof(icl_core::thread::Mutex), vcg_rwlock = sizeof(icl_core::thread::RWLock), vcg_sem = sizeof(icl_core::thread::Semaphore),
  vcg_sml = sizeof(icl_core::thread::ScopedMutexLock), vcg_srw = sizeof(icl_core::thread::ScopedRWLock), vcg_spin = sizeof(icl_core::thread::SpinLock), vcg_sspin = sizeof(icl_core::thread::ScopedSpinLock);
}
namespace vcg_force {
using namespace icl_core::thread;
bool f1(SpinLock& l) { SpinLock n; bool b = l.lock() && l.tryLock(); l.unlock(); ScopedSpinLock s(l); return b && s && s.isLocked(); }
bool f2(Mutex& m, RWLock& l) { ScopedMutexLock a(m); ScopedRWLock b(l, ScopedRWLock::eLM_READ_LOCK); return a && b; }
}
