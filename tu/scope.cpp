#include <icl_core/AtScopeEnd.h>
#include <icl_core/Finalizable.h>
#include <icl_core/BitfieldHelper.h>
#include <stdint.h>
typedef icl_core::AtScopeEnd A;
typedef icl_core::Finalizable<uint32_t> F;
template class icl_core::Finalizable<uint32_t>;
extern "C" {
extern const unsigned long vcg_a_size = sizeof(A), vcg_a_fn = __builtin_offsetof(A, m_func), vcg_a_fnsize = sizeof(boost::function<void()>), vcg_a_run = __builtin_offsetof(A, m_run_at_scope_end);
extern const unsigned long vcg_f_size = sizeof(F), vcg_f_val = __builtin_offsetof(F, m_value), vcg_f_final = __builtin_offsetof(F, m_final);
}
void use(const boost::function<void()>& f) { A* a = new A(f); a->disable(); a->enable(); delete a; A b(f); }
