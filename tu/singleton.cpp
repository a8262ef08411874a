#include <icl_core/Singleton.hpp>
#include <icl_core_thread/SingletonThreadingModels.h>
#include <icl_core_logging/SingletonThreadingModels.h>
// the policies are arbitrary: only their contracts are used
struct Obj { int x; Obj(); ~Obj(); };
template <class T> struct C { static T* create(); static void destroy(T*); };
template <class T> struct L { static void scheduleDestruction(icl_core::DestructionFuncPtr); static void onDeadReference(); };
struct Mtx { int state; Mtx(); ~Mtx(); };
struct Grd { Mtx& m; explicit Grd(Mtx&); ~Grd(); };
template <class T> struct M { static void memoryBarrier(); typedef Grd Guard; typedef Mtx Lock; };
typedef icl_core::Singleton<Obj, C, L, M> S;
typedef icl_core::Singleton<Obj, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::thread::STMMultiThreadedWithMutex> SM;
typedef icl_core::Singleton<Obj, icl_core::SCPCreateUsingNew, icl_core::SLPNoDestroy, icl_core::logging::STMMultiThreadedWithSemaphore> SS;
typedef icl_core::Singleton<Obj> S1;
template class icl_core::Singleton<Obj, C, L, M>;
extern "C" {
Obj* vcg_s() { return &S::instance(); }
Obj* vcg_sm() { return &SM::instance(); }
Obj* vcg_ss() { return &SS::instance(); }
Obj* vcg_s1() { return &S1::instance(); }
}
