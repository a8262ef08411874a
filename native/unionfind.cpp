#include "h.h"
#include <icl_core/UnionFind.h>
typedef icl_core::UnionFind UF;
static void log(const std::string& s) { g_ctx += s; if (g_ctx.size() > 6000) g_ctx = "..." + g_ctx.substr(g_ctx.size() - 3000); }
template <class F> static int thrown(F f) { try { f(); return 0; } catch (const std::out_of_range&) { return 1; } catch (...) { return 2; } }
// oracle: an explicit partition
static void same(UF& u, std::vector<int>& s)
{
  size_t n = s.size();
  CHECK(u.size() == n, "size() is ", u.size());
  std::map<int, size_t> rep;
  for (size_t i = 0; i < n; ++i)
  {
    size_t r = u.find(i);
    CHECK(r < n && s[r] == s[i], "find(", i, ") answers ", r, ", which is not in the same set");
    if (rep.count(s[i])) CHECK(rep[s[i]] == r, "find(", i, ") answers ", r, ", another member of the set answers ", rep[s[i]]);
    rep[s[i]] = r;
  }
  CHECK(thrown([&] { u.find(n); }) == 1 && thrown([&] { u.find(size_t(-1)); }) == 1, "find of a missing element must refuse");
}
static void history(Rng& r, int steps)
{
  size_t n = r.below(9); g_ctx = cat("UnionFind(", n, ")");
  UF u(n); std::vector<int> s; int next = 0; for (size_t i = 0; i < n; ++i) s.push_back(next++);
  bool lazy = r.coin(); if (!lazy) same(u, s);
  for (int k = 0; k < steps; ++k)
  {
    n = s.size();
    switch (r.below(8))
    {
    case 0: { size_t m = r.below(4); log(cat(".grow(", m, ")")); if (m == 1 && r.coin()) u.grow(); else u.grow(m); while (m--) s.push_back(next++); break; }
    case 1: { if (!n) break; size_t x = r.below(n); log(cat(".find(", x, ")")); size_t f = u.find(x); CHECK(f < n && s[f] == s[x], "find answers ", f); break; }
    case 2: { size_t x = n + r.below(3), y = r.below(n + 2); if (r.coin()) std::swap(x, y); log(cat(".merge(", x, ",", y, ")")); CHECK(thrown([&] { u.merge(x, y); }) == 1, "merge of a missing element must refuse"); break; }
    default: { if (!n) break; size_t x = r.below(n), y = r.below(n); log(cat(".merge(", x, ",", y, ")")); u.merge(x, y); int a = s[x], b = s[y]; for (int& v : s) if (v == b) v = a; break; }
    }
    if (!lazy) same(u, s); else { UF c(u); same(c, s); }
  }
  same(u, s);
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  // a long chain through equal-rank merges, and one large structure
  { g_ctx = "1024 elements merged pairwise"; UF u(1024); for (size_t d = 1; d < 1024; d *= 2) for (size_t i = 0; i + d < 1024; i += 2 * d) u.merge(i + d, i); for (size_t i = 0; i < 1024; ++i) CHECK(u.find(i) == u.find(0), "element ", i); }
  { g_ctx = "300 elements, merges of leaves"; UF u(300); std::vector<int> s(300); for (int i = 0; i < 300; ++i) s[i] = i; for (int k = 0; k < 400; ++k) { size_t x = r.below(300), y = r.below(300); u.merge(x, y); int a = s[x], b = s[y]; for (int& v : s) if (v == b) v = a; } same(u, s); }
  int n = 0;
  while (h_now() < until && n < 200000) { history(r, 4 + r.below(20)); ++n; }
}
