// mechanical amalgamation of the translation units under contract (no code of its own but a concrete operation and wrappers)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core_thread/MutexImplPosix.cpp"
#include "icl_core_thread/Mutex.cpp"
#include "icl_core_thread/ThreadImplPosix.cpp"
#include "icl_core_thread/Thread.cpp"
#include "icl_core_thread/PeriodicThreadImplTimerfd.cpp"
#include "icl_core_thread/PeriodicThreadImplEmulate.cpp"
#include "icl_core_thread/PeriodicThread.cpp"
#include "icl_core_dispatch/Operation.cpp"
#include "icl_core_dispatch/CallbackOperation.cpp"
#include "icl_core_dispatch/PeriodicDispatchThread.cpp"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" { void vcg_op_execute(void*); void vcg_op_dispose(void*); }
namespace vcg { struct Op : public icl_core::dispatch::Operation { Op() {} virtual ~Op() { vcg_op_dispose(this); } virtual void execute() { vcg_op_execute(this); } }; }
extern "C" {
typedef icl_core::dispatch::PeriodicDispatchThread PDT;
extern const unsigned long vcg_pdt = sizeof(PDT), vcg_op = sizeof(vcg::Op), vcg_execute = offsetof(PDT, m_execute), vcg_starting = offsetof(PDT, m_starting), vcg_cb = sizeof(icl_core::dispatch::CallbackOperation);
void vcg_ctor(void* p, const std::string& d, const icl_core::TimeSpan& t, int prio) { new (p) PDT(d, t, prio); }
void vcg_op_ctor(void* p) { new (p) vcg::Op(); }
void vcg_dtor(PDT& w) { w.~PDT(); }
void vcg_add(PDT& w, icl_core::dispatch::Operation* o) { w.addOperation(o); }
void vcg_run(icl_core::thread::Thread& w) { w.run(); }
void vcg_cb_ctor(void* p, const boost::function<void ()>& f) { new (p) icl_core::dispatch::CallbackOperation(f); }
void vcg_cb_dtor(icl_core::dispatch::CallbackOperation& o) { o.~CallbackOperation(); }
void vcg_cb_execute(icl_core::dispatch::Operation& o) { o.execute(); }
}
