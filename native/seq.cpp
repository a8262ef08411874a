#include "h.h"
#include <icl_core/SequenceNumber.h>
using icl_core::SequenceNumber;
template <class T, T M, T m, T I> static void one(T x, T y)
{
  typedef SequenceNumber<T, M, m, I> S;
  g_ctx = cat("SequenceNumber of ", sizeof(T) * 8, " bits, max ", +M, ", min ", +m, ": a=", +x, " b=", +y);
  S a(x), b(y);
  CHECK(T(a) == x, "value");
  unsigned __int128 d = x < y ? (unsigned __int128)y - x : (unsigned __int128)x - y, half = M / 2;
  CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality");
  if (d != half)
  {
    bool lt = x < y ? d < half : (x > y && d > half), gt = y < x ? d < half : (y > x && d > half);
    CHECK((a < b) == lt, "a < b"); CHECK((a <= b) == (lt || x == y), "a <= b"); CHECK((a > b) == gt, "a > b"); CHECK((a >= b) == (gt || x == y), "a >= b");
    CHECK(lt + gt + (x == y) == 1, "trichotomy");
  }
  T n = T(x + 1) >= M || x + 1 >= M ? m : T(x + 1);
  S c(a); S o = c++; CHECK(T(c) == n && T(o) == x, "post-increment gives ", +T(c), ", returns ", +T(o));
  S e; CHECK(T(e) == I, "default value is ", +T(e)); e = a; S& f = ++e; CHECK(&f == &e && T(e) == n, "pre-increment gives ", +T(e)); e = y; CHECK(T(e) == y, "assignment");
  CHECK(S::maxValue() == M && S::minValue() == m, "bounds");
}
template <class T, T M, T m, T I> static void some(Rng& r)
{
  uint64_t n = uint64_t(M) - uint64_t(m);
  auto pick = [&]() -> T { switch (r.below(5)) { case 0: return T(m + std::min<uint64_t>(r.below(4), n - 1)); case 1: return T(M - 1 - std::min<uint64_t>(r.below(4), n - 1)); case 2: { uint64_t h = M / 2; return T(std::max<uint64_t>(m, std::min<uint64_t>(M - 1, h - 2 + r.below(5)))); } default: return T(m + r.below(n)); } };
  T x = pick(), y = pick();
  if (r.below(3) == 0) { uint64_t h = M / 2, z = uint64_t(x) + h - 3 + r.below(7); if (z >= m && z < M && z > x) y = T(z); if (r.coin()) std::swap(x, y); }
  one<T, M, m, I>(x, y);
}
static void all(Rng& r)
{
  some<uint8_t, 255, 0, 0>(r); some<uint8_t, 200, 10, 10>(r); some<uint16_t, 1000, 3, 17>(r); some<uint32_t, 4294967295u, 0, 0>(r);
  some<uint64_t, 18446744073709551615ull, 0, 0>(r); some<uint64_t, 7, 1, 1>(r); some<int32_t, 2147483647, 0, 0>(r); some<uint16_t, 65535, 0, 0>(r); some<int16_t, 300, 0, 5>(r);
}
void h_model(const std::string&, const Model& m)
{
  uint64_t x = uint64_t(h_int(m, "a")), y = uint64_t(h_int(m, "b"));
  if (x < 255 && y < 255) one<uint8_t, 255, 0, 0>(x, y);
  if (x < 4294967295u && y < 4294967295u) one<uint32_t, 4294967295u, 0, 0>(x, y);
  one<uint64_t, 18446744073709551615ull, 0, 0>(x, y);
}
void h_search(Rng& r, double until)
{
  for (int x = 0; x < 255; ++x) for (int y = 0; y < 255; ++y) { one<uint8_t, 255, 0, 0>(x, y); if (x >= 10 && y >= 10 && x < 200 && y < 200) one<uint8_t, 200, 10, 10>(x, y); if (x < 7 && y < 7 && x && y) one<uint64_t, 7, 1, 1>(x, y); }
  for (int n = 0; h_now() < until && n < 3000000; ++n) all(r);
}
