// mechanical amalgamation of the logging library's own thread class (no code of its own but one subclass that runs a client function)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core/os_posix_time.cpp"
#include "icl_core_logging/ThreadImplPosix.cpp"
#include "icl_core_logging/Thread.cpp"
extern "C" void vcg_client_run(icl_core::logging::Thread*);
namespace vcg { struct Worker : public icl_core::logging::Thread { Worker(int p) : Thread(p) {} virtual ~Worker() {} virtual void run() { vcg_client_run(this); } }; }
extern "C" {
using icl_core::logging::Thread;
extern const unsigned long vcg_thread = sizeof(vcg::Worker), vcg_execute = offsetof(Thread, m_execute), vcg_finished = offsetof(Thread, m_finished), vcg_joined = offsetof(Thread, m_joined), vcg_starting = offsetof(Thread, m_starting);
void vcg_ctor(void* p, int prio) { new (p) vcg::Worker(prio); }
void vcg_dtor(vcg::Worker& w) { w.~Worker(); }
bool vcg_start(Thread& t) { return t.start(); }
void vcg_stop(Thread& t) { t.stop(); }
void vcg_join(Thread& t) { t.join(); }
bool vcg_running(const Thread& t) { return t.running(); }
bool vcg_execute_flag(const Thread& t) { return t.execute(); }
void vcg_worker(icl_core::logging::ThreadImplPosix& i) { icl_core::logging::ThreadImplPosix::runThread(&i); }
}
