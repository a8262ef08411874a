#include "h.h"
#include <icl_core/Array2D.h>
typedef icl_core::Array2D<uint32_t> A;
static void log(const std::string& s) { g_ctx += s; if (g_ctx.size() > 6000) g_ctx = "..." + g_ctx.substr(g_ctx.size() - 3000); }
struct O { size_t w, k; std::vector<uint32_t> c; };
static void same(A& a, const O& o)
{
  const A& ca = a; size_t n = o.w * o.k;
  CHECK(a.width() == o.w && a.height() == o.k, "shape is ", a.width(), "x", a.height(), " instead of ", o.w, "x", o.k);
  CHECK(a.size() == n && a.empty() == (n == 0), "size() is ", a.size());
  CHECK(size_t(a.end() - a.begin()) == n && size_t(ca.end() - ca.begin()) == n, "iteration covers another number of cells");
  for (size_t i = 0; i < n; ++i)
  {
    size_t c = i % o.w, r = i / o.w, gc = size_t(-1), gr = size_t(-1);
    CHECK(a.at(i) == o.c[i] && a[i] == o.c[i] && ca.at(i) == o.c[i] && ca[i] == o.c[i] && *(a.begin() + i) == o.c[i] && *(ca.begin() + i) == o.c[i], "cell ", i, " holds ", a[i], " instead of ", o.c[i]);
    CHECK(&a.at(c, r) == &a[i] && &a(c, r) == &a[i] && &ca.at(c, r) == &a[i] && &ca(c, r) == &a[i], "column ", c, " row ", r, " is not cell ", i);
    CHECK(ca.index1D(c, r) == i, "index1D(", c, ",", r, ") is ", ca.index1D(c, r));
    ca.indexTo2D(i, gc, gr); CHECK(gc == c && gr == r, "indexTo2D(", i, ") is ", gc, ",", gr);
  }
}
static void history(Rng& r, int steps)
{
  O o; o.w = r.below(5); o.k = r.below(5);
  uint32_t v = uint32_t(r.next());
  g_ctx = cat("Array2D(", o.w, ",", o.k, ",", v, ")");
  A a(o.w, o.k, v); o.c.assign(o.w * o.k, v);
  A other; O oo; oo.w = oo.k = 0;
  same(a, o); same(other, oo);
  for (int s = 0; s < steps; ++s)
  {
    size_t w = r.below(6), k = r.below(6); v = uint32_t(r.next());
    switch (r.below(12))
    {
    case 0: log(cat(".resize(", w, ",", k, ")")); a.resize(w, k); o.w = w; o.k = k; o.c.resize(w * k); break;
    case 1: log(cat(".resize(", w, ",", k, ",", v, ")")); a.resize(w, k, v); o.w = w; o.k = k; o.c.resize(w * k, v); break;
    case 2: log(cat(".assign(", w, ",", k, ")")); a.assign(w, k); o.w = w; o.k = k; o.c.assign(w * k, 0); break;
    case 3: log(cat(".assign(", w, ",", k, ",", v, ")")); a.assign(w, k, v); o.w = w; o.k = k; o.c.assign(w * k, v); break;
    case 4: log(".reset()"); a.reset(); o.c.assign(o.w * o.k, 0); break;
    case 5: log(cat(".set(", v, ")")); a.set(v); o.c.assign(o.w * o.k, v); break;
    case 6: log(".swap(other)"); a.swap(other); std::swap(o, oo); break;
    case 7: log(".other=a"); other = a; oo = o; break;
    case 8: { log(".copy"); A c(a); same(c, o); if (!o.c.empty()) { c[0] ^= 1; } break; }
    case 9: { log(".self="); A& b = a; a = b; break; }
    default: if (o.c.empty()) break; { size_t i = r.below(o.c.size()); log(cat("[", i, "]=", v)); if (r.coin()) a(i % o.w, i / o.w) = v; else a.at(i) = v; o.c[i] = v; }
    }
    same(a, o); same(other, oo);
  }
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  { g_ctx = "300x170 array"; O o; o.w = 300; o.k = 170; o.c.assign(o.w * o.k, 0); A a(300, 170); for (size_t i = 0; i < o.c.size(); ++i) { o.c[i] = uint32_t(i * 2654435761u); a(i % 300, i / 300) = o.c[i]; } same(a, o); }
  int n = 0;
  while (h_now() < until && n < 100000) { history(r, 1 + r.below(12)); ++n; }
}
