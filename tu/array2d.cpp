#include <icl_core/Array2D.h>
#include <stdint.h>
template class icl_core::Array2D<uint32_t>;
typedef icl_core::Array2D<uint32_t> A;
extern "C" {
extern const unsigned long vcg_a_data = __builtin_offsetof(A, m_container), vcg_a_width = __builtin_offsetof(A, m_width), vcg_a_height = __builtin_offsetof(A, m_height), vcg_a_size = sizeof(A);
}
