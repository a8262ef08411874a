// mechanical amalgamation of the translation units under contract (no code of its own)
#include "icl_core/Noncopyable.cpp"
#include "icl_core_logging/SemaphoreImplPosix.cpp"
#include "icl_core_logging/Semaphore.cpp"
#include "icl_core_logging/ScopedSemaphore.cpp"
extern "C" {
extern const unsigned long vcg_sem = sizeof(icl_core::logging::Semaphore), vcg_ssem = sizeof(icl_core::logging::ScopedSemaphore);
}
namespace vcg_force {
using namespace icl_core::logging;
bool f2(Semaphore& m) { ScopedSemaphore a(m); return a && a.isDecremented(); }
}
