#include "h.h"
#include <icl_core/Deprecate.h>
#include <icl_core/SetHelper.h>
struct Rev { bool operator()(const uint32_t& a, const uint32_t& b) const { return b < a; } };
struct Bit { bool operator()(const uint32_t& a, const uint32_t& b) const { return (a ^ 5) < (b ^ 5); } };
template <class S> static std::string show(const S& s) { std::string r = "{"; for (uint32_t x : s) r += cat(x, ","); return r + "}"; }
template <class C> static void one(const std::set<uint32_t, C>& a, const std::set<uint32_t, C>& b)
{
  size_t c = 0; for (uint32_t x : a) c += b.count(x);
  icl_core::SetRelation w = c == a.size() && c == b.size() ? icl_core::eSR_EQUAL : c == b.size() ? icl_core::eSR_PROPER_SUPERSET : c == a.size() ? icl_core::eSR_PROPER_SUBSET : c ? icl_core::eSR_INTERSECTION_NONEMPTY : icl_core::eSR_DISJUNCT;
  g_ctx = show(a) + " and " + show(b);
  icl_core::SetRelation g = icl_core::setRelation(a, b);
  CHECK(g == w, "the relation answered is ", int(g), " instead of ", int(w));
}
template <class C> static void pick(Rng& r)
{
  std::set<uint32_t, C> a, b; uint32_t u = uint32_t(2 + r.below(6)); size_t n = r.below(5), m = r.below(5);
  while (n--) a.insert(uint32_t(r.below(u))); while (m--) b.insert(uint32_t(r.below(u)));
  if (r.below(4) == 0) { b = a; if (r.coin()) b.insert(uint32_t(r.below(u))); if (r.coin() && !b.empty()) b.erase(b.begin()); }
  one(a, b); one(b, a); one(a, a);
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { int n = 0; while (h_now() < until && n < 100000) { ++n; pick<std::less<uint32_t> >(r); pick<Rev>(r); pick<Bit>(r); } }
