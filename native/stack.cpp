#include "h.h"
#include <icl_core/SearchableStack.h>
struct Eq { unsigned id; Eq() : id(1) {} bool operator()(const uint32_t& a, const uint32_t& b) const { switch (id) { case 0: return a == b; case 1: return a / 4 == b / 4; case 2: return true; case 3: return false; default: return a < b; } } };
static void log(const std::string& s) { g_ctx += s; if (g_ctx.size() > 6000) g_ctx = "..." + g_ctx.substr(g_ctx.size() - 3000); }
template <class S, class E> static void same(S& s, const std::vector<uint32_t>& o, Rng& r, E eq)
{
  const S& c = s;
  CHECK(c.size() == o.size() && c.empty() == o.empty(), "size() is ", c.size());
  if (!o.empty()) CHECK(s.top() == o.back() && c.top() == o.back() && &s.top() == &c.top(), "top() is ", c.top());
  CHECK(size_t(c.end() - c.begin()) == o.size() && size_t(c.rend() - c.rbegin()) == o.size(), "iteration covers another number of elements");
  for (size_t i = 0; i < o.size(); ++i) CHECK(*(c.begin() + i) == o[i] && *(c.rbegin() + (o.size() - 1 - i)) == o[i], "element ", i);
  for (int k = 0; k < 3; ++k)
  {
    uint32_t v = k && !o.empty() ? o[r.below(o.size())] : uint32_t(r.below(12));
    size_t w = 0; while (w < o.size() && !eq(o[w], v)) ++w;
    CHECK(size_t(c.find(v) - c.begin()) == w, "find(", v, ") stops at ", c.find(v) - c.begin(), " instead of ", w);
  }
}
template <class S, class E> static void history(Rng& r, int steps, S& s, E eq)
{
  std::vector<uint32_t> o;
  same(s, o, r, eq);
  for (int k = 0; k < steps; ++k)
  {
    uint32_t v = uint32_t(r.coin() ? r.below(12) : r.next());
    switch (r.below(12))
    {
    case 0: log(".clear()"); s.clear(); o.clear(); break;
    case 1: case 2: case 3: if (o.empty()) break; log(".pop()"); s.pop(); o.pop_back(); break;
    case 4: if (o.empty()) break; log(cat(".top()=", v)); s.top() = v; o.back() = v; break;
    default: log(cat(".push(", v, ")")); s.push(v); o.push_back(v);
    }
    same(s, o, r, eq);
  }
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  { g_ctx = "300 elements"; icl_core::SearchableStack<uint32_t> s; std::vector<uint32_t> o; for (uint32_t i = 0; i < 300; ++i) { s.push(i * 7 % 50); o.push_back(i * 7 % 50); } same(s, o, r, std::equal_to<uint32_t>()); }
  int n = 0;
  while (h_now() < until && n < 100000)
  {
    Eq e; e.id = unsigned(r.below(5)); icl_core::SearchableStack<uint32_t, Eq> s; s.m_comp = e; g_ctx = cat("SearchableStack, equality ", e.id); history(r, 1 + r.below(20), s, e);
    icl_core::SearchableStack<uint32_t> d; g_ctx = "SearchableStack"; history(r, 1 + r.below(20), d, std::equal_to<uint32_t>());
    ++n;
  }
}
