#include <icl_core/Deprecate.h>
#include <icl_core/SetHelper.h>
#include <stdint.h>
struct Cmp { bool operator()(const uint32_t& a, const uint32_t& b) const; };
template icl_core::SetRelation icl_core::setRelation(const std::set<uint32_t, Cmp>&, const std::set<uint32_t, Cmp>&);
template icl_core::SetRelation icl_core::setRelation(const std::set<uint32_t>&, const std::set<uint32_t>&);
extern "C" { extern const unsigned long vcg_size = sizeof(std::set<uint32_t, Cmp>), vcg_equal = icl_core::eSR_EQUAL, vcg_super = icl_core::eSR_PROPER_SUPERSET, vcg_sub = icl_core::eSR_PROPER_SUBSET, vcg_inter = icl_core::eSR_INTERSECTION_NONEMPTY, vcg_disjunct = icl_core::eSR_DISJUNCT; }
