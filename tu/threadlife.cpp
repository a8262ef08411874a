// mechanical amalgamation of the translation units under contract (no code of its own but one subclass that runs a client function)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core_thread/MutexImplPosix.cpp"
#include "icl_core_thread/Mutex.cpp"
#include "icl_core_thread/ThreadImplPosix.cpp"
#include "icl_core_thread/Thread.cpp"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" void vcg_client_run(icl_core::thread::Thread*);
namespace vcg { struct Worker : public icl_core::thread::Thread { Worker(const icl_core::String& d, int p) : Thread(d, p) {} virtual ~Worker() {} virtual void run() { vcg_client_run(this); } }; }
extern "C" {
using icl_core::thread::Thread;
extern const unsigned long vcg_thread = sizeof(vcg::Worker), vcg_execute = offsetof(Thread, m_execute), vcg_finished = offsetof(Thread, m_finished), vcg_joined = offsetof(Thread, m_joined), vcg_starting = offsetof(Thread, m_starting);
void vcg_ctor(void* p, const std::string& d, int prio) { new (p) vcg::Worker(d, prio); }
void vcg_dtor(vcg::Worker& w) { w.~Worker(); }
bool vcg_start(Thread& t) { return t.start(); }
void vcg_stop(Thread& t) { t.stop(); }
void vcg_join(Thread& t) { t.join(); }
bool vcg_wait(Thread& t) { return t.wait(); }
bool vcg_wait_until(Thread& t, const icl_core::TimeStamp& s) { return t.wait(s); }
bool vcg_wait_for(Thread& t, const icl_core::TimeSpan& s) { return t.wait(s); }
bool vcg_running(const Thread& t) { return t.running(); }
bool vcg_execute_flag(const Thread& t) { return t.execute(); }
void vcg_max(icl_core::TimeStamp* p) { *p = icl_core::TimeStamp::maxTime(); }
void vcg_worker(icl_core::thread::ThreadImplPosix& i) { icl_core::thread::ThreadImplPosix::runThread(&i); }
}
