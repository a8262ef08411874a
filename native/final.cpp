#include "h.h"
#include <icl_core/Finalizable.h>
typedef icl_core::Finalizable<uint32_t> F;
static void log(const std::string& s) { g_ctx += s; }
template <class T> static int thrown(T f) { try { f(); return 0; } catch (const std::logic_error&) { return 1; } catch (...) { return 2; } }
static void history(Rng& r, int steps)
{
  uint32_t v[2]; bool f[2] = {false, false}; v[0] = uint32_t(r.next()); v[1] = uint32_t(r.below(3));
  g_ctx = cat("a(", v[0], "), b(", v[1], ")");
  F o[2] = {F(v[0]), F(v[1])};
  for (int s = 0; s < steps; ++s)
  {
    int i = int(r.below(2)), j = int(r.below(2)); uint32_t x = uint32_t(r.below(4)); const char* n = i ? "b" : "a";
    switch (r.below(6))
    {
    case 0: log(cat("; ", n, ".finalize()")); o[i].finalize(); f[i] = true; break;
    case 1: case 2: log(cat("; ", n, "=", x)); CHECK(thrown([&] { o[i] = x; }) == (f[i] ? 1 : 0), "assignment refused or accepted wrongly"); if (!f[i]) v[i] = x; break;
    case 3: case 4: log(cat("; ", n, "=", j ? "b" : "a")); CHECK(thrown([&] { o[i] = o[j]; }) == (f[i] ? 1 : 0), "assignment refused or accepted wrongly"); if (!f[i]) v[i] = v[j]; break;
    default: { log("; copy"); F c(o[i]); CHECK(uint32_t(c) == v[i] && c.isFinal() == f[i], "the copy differs"); CHECK(thrown([&] { c = 77; }) == (f[i] ? 1 : 0), "the copy accepts or refuses assignment wrongly"); }
    }
    for (int k = 0; k < 2; ++k) CHECK(uint32_t(o[k]) == v[k] && o[k].isFinal() == f[k], k ? "b" : "a", " is ", uint32_t(o[k]), " final ", o[k].isFinal());
  }
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until) { int n = 0; while (h_now() < until && n < 30000) { history(r, 1 + int(r.below(12))); ++n; } }
