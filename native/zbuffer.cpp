#include "h.h"
#include <icl_core/ZBuffer.h>
struct Cmp { unsigned id; bool operator()(const uint32_t& a, const uint32_t& b) const { switch (id) { case 0: return a < b; case 1: return b < a; case 2: return a <= b; case 3: return true; case 4: return false; default: return ((a * 31 + b * 17) >> 3) & 1; } } };
typedef icl_core::ZBuffer<uint32_t, Cmp> Z;
static void log(const std::string& s) { g_ctx += s; if (g_ctx.size() > 6000) g_ctx = "..." + g_ctx.substr(g_ctx.size() - 3000); }
struct O { bool f; uint32_t v; };
static void same(Z& z, const std::vector<O>& o)
{
  const Z& c = z;
  CHECK(c.size() == o.size() && c.buffer().size() == o.size(), "size() is ", c.size());
  for (size_t i = 0; i < o.size(); ++i)
  {
    CHECK(bool(c.at(i)) == o[i].f && bool(c[i]) == o[i].f && bool(c.buffer()[i]) == o[i].f, "position ", i, " holds a value: ", bool(c.at(i)));
    if (o[i].f) CHECK(*c.at(i) == o[i].v && *c[i] == o[i].v && *c.buffer()[i] == o[i].v, "position ", i, " holds ", *c.at(i), " instead of ", o[i].v);
  }
}
template <class F> static void history(Rng& r, int steps, F mk)
{
  size_t n = r.below(6); Cmp cmp; cmp.id = unsigned(r.below(6));
  g_ctx = cat("ZBuffer(", n, "), comparator ", cmp.id);
  Z z(n, cmp); std::vector<O> o(n, O());
  same(z, o);
  for (int s = 0; s < steps; ++s)
  {
    if (r.below(8) == 0) { log(".reset()"); z.reset(); o.assign(n, O()); }
    else if (n)
    {
      size_t p = r.below(n); uint32_t v = mk();
      log(cat(".update(", p, ",", v, ")"));
      bool want = !o[p].f || cmp(v, o[p].v), got = z.update(p, v);
      if (want) { o[p].f = true; o[p].v = v; }
      CHECK(got == want, "update reports ", got);
    }
    same(z, o);
  }
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  { g_ctx = "default comparator"; icl_core::ZBuffer<int> z(2); CHECK(z.update(0, 5) && !z.update(0, 5) && !z.update(0, 6) && z.update(0, -4) && *z.at(0) == -4 && !z.at(1), "smaller values must win"); }
  int n = 0;
  while (h_now() < until && n < 100000) { bool small = r.coin(); history(r, 1 + r.below(16), [&] { return small ? uint32_t(r.below(4)) : uint32_t(r.next()); }); ++n; }
}
