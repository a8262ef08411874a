#include <icl_core/ZBuffer.h>
#include <stdint.h>
struct Cmp { unsigned id; bool operator()(const uint32_t& a, const uint32_t& b) const; };
template class icl_core::ZBuffer<uint32_t, Cmp>;
typedef icl_core::ZBuffer<uint32_t, Cmp> Z;
typedef boost::optional<uint32_t> O;
extern "C" {
extern const unsigned long vcg_z_data = __builtin_offsetof(Z, m_buffer), vcg_z_cmp = __builtin_offsetof(Z, m_cmp), vcg_z_size = sizeof(Z), vcg_o_size = sizeof(O),
  vcg_o_init = __builtin_offsetof(O, m_initialized), vcg_o_val = __builtin_offsetof(O, m_storage);
}
