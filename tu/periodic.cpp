// mechanical amalgamation of the translation units under contract (no code of its own but one subclass that runs a client function)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core_thread/MutexImplPosix.cpp"
#include "icl_core_thread/Mutex.cpp"
#include "icl_core_thread/ThreadImplPosix.cpp"
#include "icl_core_thread/Thread.cpp"
#include "icl_core_thread/PeriodicThreadImplTimerfd.cpp"
#include "icl_core_thread/PeriodicThreadImplEmulate.cpp"
#include "icl_core_thread/PeriodicThread.cpp"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" void vcg_client_run(void*);
namespace vcg { struct Worker : public icl_core::thread::PeriodicThread { Worker(const icl_core::String& d, const icl_core::TimeSpan& t, int p) : PeriodicThread(d, t, p) {} virtual ~Worker() {} virtual void run() { vcg_client_run(this); } }; }
extern "C" {
using icl_core::thread::PeriodicThread; using icl_core::TimeSpan;
typedef icl_core::thread::PeriodicThreadImplTimerfd Tfd;
typedef icl_core::thread::PeriodicThreadImplEmulate Emu;
extern const unsigned long vcg_worker = sizeof(vcg::Worker), vcg_impl = offsetof(PeriodicThread, m_impl), vcg_emu = sizeof(Emu),
  vcg_info = offsetof(Tfd, m_info), vcg_period = offsetof(Tfd, m_period), vcg_created = offsetof(Tfd, timer_created), vcg_fd = offsetof(Tfd::periodic_info, timer_fd),
  vcg_eperiod = offsetof(Emu, m_period), vcg_elast = offsetof(Emu, m_last_execution_time);
void vcg_ctor(void* p, const std::string& d, const TimeSpan& t, int prio) { new (p) vcg::Worker(d, t, prio); }
void vcg_dtor(vcg::Worker& w) { w.~Worker(); }
void vcg_begin(vcg::Worker& t) { static_cast<icl_core::thread::Thread&>(t).makePeriodic(); }
bool vcg_set(PeriodicThread& t, const TimeSpan& s) { return t.setPeriod(s); }
void vcg_get(const PeriodicThread& t, TimeSpan& s) { s = t.period(); }
void vcg_wait(PeriodicThread& t) { t.waitPeriod(); }
void vcg_emu_ctor(void* p, const TimeSpan& t) { new (p) Emu(t); }
void vcg_emu_dtor(Emu& e) { e.~Emu(); }
bool vcg_emu_set(icl_core::thread::PeriodicThreadImpl& e, const TimeSpan& s) { return e.setPeriod(s); }
void vcg_emu_get(const icl_core::thread::PeriodicThreadImpl& e, TimeSpan& s) { s = e.period(); }
void vcg_emu_wait(icl_core::thread::PeriodicThreadImpl& e) { e.waitPeriod(); }
void vcg_emu_begin(icl_core::thread::PeriodicThreadImpl& e) { e.makePeriodic(); }
}
