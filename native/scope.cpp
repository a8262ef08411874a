#include "h.h"
#include <icl_core/AtScopeEnd.h>
static int g_runs[4];
struct Act { int i; void operator()() const { ++g_runs[i]; } };
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  int n = 0;
  while (h_now() < until && n < 30000)
  {
    ++n; int want[4] = {0, 0, 0, 0}; memset(g_runs, 0, sizeof g_runs); g_ctx = "";
    {
      std::vector<icl_core::AtScopeEnd*> g; bool on[4]; size_t k = 1 + r.below(4);
      for (size_t i = 0; i < k; ++i) { Act a; a.i = int(i); boost::function<void()> f(a); g.push_back(new icl_core::AtScopeEnd(f)); on[i] = true; }
      for (size_t s = r.below(8); s-- > 0;) { size_t i = r.below(k); bool e = r.coin(); g_ctx += cat(" ", i, e ? "+" : "-"); if (e) g[i]->enable(); else g[i]->disable(); on[i] = e; for (int j = 0; j < 4; ++j) CHECK(g_runs[j] == 0, "the action ran early"); }
      for (size_t i = 0; i < k; ++i) { delete g[i]; want[i] = on[i]; for (int j = 0; j < 4; ++j) CHECK(g_runs[j] == want[j], "action ", j, " ran ", g_runs[j], " times instead of ", want[j]); }
    }
  }
}
