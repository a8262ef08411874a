#include <icl_core/SearchableStack.h>
#include <stdint.h>
struct Eq { unsigned id; bool operator()(const uint32_t& a, const uint32_t& b) const; };
template class icl_core::SearchableStack<uint32_t, Eq>;
template class icl_core::SearchableStack<uint32_t>;
typedef icl_core::SearchableStack<uint32_t, Eq> S;
extern "C" { extern const unsigned long vcg_s_size = sizeof(S), vcg_s_cmp = __builtin_offsetof(S, m_comp); }
