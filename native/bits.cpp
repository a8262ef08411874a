#include "h.h"
#include <icl_core/BitfieldHelper.h>
enum En { eA = 1, eB = 2, eC = 0x10000 };
template <class T> static void one(const char* n, int m, T f)
{
  g_ctx = cat(n, " field ", (long long)f, ", mask ", m);
  T k = T(m), x = f; icl_core::setBits<T>(m, x); CHECK(x == T(f | k), "setBits gives ", (long long)x);
  x = f; icl_core::clearBits<T>(m, x); CHECK(x == T(f & T(~k)), "clearBits gives ", (long long)x);
  CHECK(icl_core::isBitSet<T>(m, f) == (T(f & k) != 0), "isBitSet gives ", icl_core::isBitSet<T>(m, f));
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  { En e = eA; icl_core::setBits<En>(eC, e); CHECK(e == (eA | eC), "enumeration"); icl_core::clearBits<En>(eA, e); CHECK(e == eC, "enumeration"); CHECK(icl_core::isBitSet<En>(eC, e) && !icl_core::isBitSet<En>(eB, e), "enumeration"); }
  int n = 0;
  while (h_now() < until && n < 300000)
  {
    ++n; int m = int(r.next()); uint64_t f = r.next();
    if (r.coin()) m = 1 << r.below(31); else if (r.coin()) m &= int(r.next());
    if (r.coin()) f &= r.next(); else if (r.coin()) f = uint64_t(1) << r.below(64);
    one<uint8_t>("uint8", m, uint8_t(f)); one<uint16_t>("uint16", m, uint16_t(f)); one<uint32_t>("uint32", m, uint32_t(f)); one<uint64_t>("uint64", m, f);
    one<int8_t>("int8", m, int8_t(f)); one<int16_t>("int16", m, int16_t(f)); one<int32_t>("int32", m, int32_t(f)); one<int64_t>("int64", m, int64_t(f));
  }
}
