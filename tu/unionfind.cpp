#include <icl_core/UnionFind.h>
typedef icl_core::UnionFind UF;
extern "C" {
extern const unsigned long vcg_uf_parent = __builtin_offsetof(UF, m_parent), vcg_uf_rank = __builtin_offsetof(UF, m_rank), vcg_uf_size = sizeof(UF);
}
// emits the inline members
std::size_t vcg_use(std::size_t n) { UF u(n); u.grow(n); u.merge(n, n); return u.find(n) + u.size(); }
