// mechanical amalgamation of the translation units under contract (no code of its own but a concrete active object and a concrete operation)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core_thread/MutexImplPosix.cpp"
#include "icl_core_thread/Mutex.cpp"
#include "icl_core_thread/SemaphoreImplPosix.cpp"
#include "icl_core_thread/Sem.cpp"
#include "icl_core_thread/ScopedMutexLock.cpp"
#include "icl_core_thread/ThreadImplPosix.cpp"
#include "icl_core_thread/Thread.cpp"
#include "icl_core_thread/ActiveObject.cpp"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" { void vcg_op_invoke(void*); void vcg_op_dispose(void*); void vcg_on_start(void*); void vcg_on_stop(void*); }
namespace vcg {
struct Active : public icl_core::thread::ActiveObject { Active(const icl_core::String& d, int p) : ActiveObject(d, p) {} virtual ~Active() {} virtual void onThreadStart() { vcg_on_start(this); } virtual void onThreadStop() { vcg_on_stop(this); } };
struct Op : public icl_core::thread::ActiveOperation { Op() {} virtual ~Op() { vcg_op_dispose(this); } virtual void invoke() { vcg_op_invoke(this); } };
}
extern "C" {
using icl_core::thread::Thread; using icl_core::thread::ActiveObject; using icl_core::thread::ActiveOperation;
extern const unsigned long vcg_active = sizeof(vcg::Active), vcg_op = sizeof(vcg::Op), vcg_execute = offsetof(Thread, m_execute), vcg_starting = offsetof(Thread, m_starting), vcg_queue = offsetof(ActiveObject, m_operation_queue), vcg_mx_impl = offsetof(icl_core::thread::Mutex, m_impl), vcg_mi_mutex = offsetof(icl_core::thread::MutexImplPosix, m_mutex), vcg_sl_locked = offsetof(icl_core::thread::ScopedMutexLock, m_is_locked), vcg_sl_mutex = offsetof(icl_core::thread::ScopedMutexLock, m_mutex);
void vcg_ctor(void* p, const std::string& d, int prio) { new (p) vcg::Active(d, prio); }
void vcg_op_ctor(void* p) { new (p) vcg::Op(); }
void vcg_run(ActiveObject& a) { a.run(); }
void vcg_stop(ActiveObject& a) { a.stop(); }
void vcg_hand_over(ActiveObject& a, ActiveOperation* o) { a.queue(o); }
}
