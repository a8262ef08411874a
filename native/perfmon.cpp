// native search for C33: the monitor against a model of groups, timers and values
#include "h.h"
#include <cmath>
#include <icl_core/TimeSpan.h>
#include <icl_core_logging/Logging.h>
#include "icl_core_performance_monitor/logging_performance_monitor.cpp"
#include "icl_core_performance_monitor/PerformanceMonitor.cpp"
typedef icl_core::perf_mon::PerformanceMonitor PM;
typedef icl_core::TimeStamp TS_;
static const char* NAMES[] = {"", "a", "b", "ab", "abc", "x y"};
static const int NN = 6;
struct Ref
{
  bool all = false, on = true;
  std::set<std::string> groups;
  std::map<std::string, std::vector<double>> data, other;
  std::map<std::string, double> fixed;
  std::map<std::string, std::pair<TS_, TS_>> timer;
  bool enabled(const std::string& g) const { return on && (all || groups.count(g)); }
} *R;
static double ms(const TS_& a, const TS_& b) { return double((int64_t(b.tsSec()) - int64_t(a.tsSec()))) * 1e3 + (double(b.tsNSec()) - double(a.tsNSec())) / 1e6; }
static std::string key(const std::string& g, const std::string& n) { return g + "::" + n; }
static std::string show(const std::vector<double>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 30; ++i) s += cat(i ? ", " : "", v[i]); return s; }
static void compare(PM* m)
{
  for (int k = 0; k < 2; ++k)
  {
    std::map<std::string, std::vector<double>>& want = k ? R->other : R->data;
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j)
    {
      std::string g = NAMES[i], n = NAMES[j], name = key(g, n);
      const std::map<std::string, std::vector<double>>& have = k ? m->m_data_nontime : m->m_data;
      auto it = have.find(name);
      std::vector<double> v = it == have.end() ? std::vector<double>() : it->second;
      CHECK(v == want[name], "'", name, "' keeps (", show(v), ") instead of (", show(want[name]), ")");
    }
  }
  for (auto& p : R->fixed) { auto i = m->m_static_data.find(p.first); CHECK(i != m->m_static_data.end() && i->second == p.second, "the static value of '", p.first, "' is lost"); }
  CHECK(m->m_static_data.size() == R->fixed.size(), "there are ", m->m_static_data.size(), " static values instead of ", R->fixed.size());
}
static void statistics(PM* m, const std::string& g, const std::string& n, bool time)
{
  std::vector<double> v = (time ? R->data : R->other)[key(g, n)], s = v;
  std::stringstream ss;
  if (!time && v.empty()) return;
  if (time) m->createStatisticSummary(ss, g, n); else m->createStatisticSummaryNonTime(ss, g, n);
  if (v.empty()) return;
  std::sort(s.begin(), s.end());
  double sum = 0;
  for (double d : v) sum += d;
  double avg = time ? m->getAverage(key(g, n)) : m->getAverageNonTime(key(g, n)), med, lo, hi;
  if (time) m->getMedian(key(g, n), med, lo, hi); else m->getMedianNonTime(key(g, n), med, lo, hi);
  std::string of = cat(" of (", show(v), ")");
  CHECK(std::fabs(avg - sum / v.size()) <= 1e-9 * (1 + std::fabs(avg)), "the average", of, " is ", avg);
  CHECK(med == s[s.size() / 2], "the median", of, " is ", med);
  CHECK(lo == s[0] && hi == s.back(), "minimum and maximum", of, " are ", lo, " and ", hi);
  // the numbers of the summary, in their order (the names have no digits)
  std::string t = ss.str();
  std::vector<double> num;
  for (size_t i = 0; i < t.size(); )
    if (isdigit((unsigned char)t[i]) || (t[i] == '-' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]))) { char* e; num.push_back(strtod(t.c_str() + i, &e)); i = size_t(e - t.c_str()); } else ++i;
  double want[5] = {double(v.size()), avg, med, lo, hi};
  CHECK(num.size() == 5, "the summary has ", num.size(), " numbers");
  for (int i = 0; i < 5; ++i) CHECK(std::fabs(num[i] - want[i]) <= 1e-3 * (1 + std::fabs(want[i])), "number ", i, " of the summary", of, " is ", num[i], " instead of ", want[i]);
}
static void round_(Rng& r, double until)
{
  PM::m_instance = NULL;
  PM* m = PM::getInstance();
  CHECK(m == PM::getInstance(), "there are two monitors");
  m->m_print_stop = false;
  R = new Ref;
  std::string c = "";
  auto reset = [&]() { uint32_t a = uint32_t(r.below(4)), b = uint32_t(r.below(4)); c += cat("initialize ", a, " ", b, "; "); g_ctx = c; PM::initialize(a, b); R->data.clear(); R->other.clear(); R->groups.insert(""); };
  if (r.below(4)) reset();
  for (int k = 0; k < 60 && h_now() < until; ++k)
  {
    std::string g = NAMES[r.below(NN)], n = NAMES[r.below(NN)], t = NAMES[r.below(NN)];
    double d = double(r.range(-50, 50));
    bool e = R->enabled(g);
    switch (r.below(14))
    {
    case 0: c += "enable '" + g + "'; "; g_ctx = c; PM::enablePrefix(g); R->groups.insert(g); break;
    case 1: c += "disable '" + g + "'; "; g_ctx = c; PM::disablePrefix(g); R->groups.erase(g); break;
    case 2: { bool b = r.coin(); c += cat("enable all ", b, "; "); g_ctx = c; PM::enableAll(b); R->all = b; break; }
    case 3: { bool b = r.below(3) != 0; c += cat("operational ", b, "; "); g_ctx = c; m->m_enabled = b; R->on = b; break; }
    case 4: case 5: case 6: c += cat("value ", d, " for '", key(g, n), "'; "); g_ctx = c; PM::addData(n, d, g); if (e) R->data[key(g, n)].push_back(d); break;
    case 7: case 8: c += cat("other value ", d, " for '", key(g, n), "'; "); g_ctx = c; PM::addNonTimeData(n, d, g); if (e) R->other[key(g, n)].push_back(d); break;
    case 9: c += cat("static value ", d, " for '", key(g, n), "'; "); g_ctx = c; PM::addStaticData(n, d, g); if (e) R->fixed[key(g, n)] = d; break;
    case 10: { c += "start '" + t + "'; "; g_ctx = c; TS_ a = TS_::now(); PM::start(t); if (R->on) R->timer[t] = std::make_pair(a, TS_::now()); break; }
    case 11: case 12:
    {
      bool both = r.coin();
      if (!both && !R->timer.count(t)) break;
      c += cat(both ? "start-stop" : "measure", " timer '", t, "' for '", key(g, n), "'; "); g_ctx = c;
      if (r.below(3) == 0) usleep(unsigned(r.below(300)));
      TS_ a = TS_::now();
      double v = both ? PM::startStop(t, n, g) : PM::measurement(t, n, g);
      TS_ b = TS_::now();
      if (!e) { CHECK(v == 0, "a measurement for a group that is not enabled is ", v); break; }
      if (R->timer.count(t))
      {
        double lo = ms(R->timer[t].second, a) - 0.01, hi = ms(R->timer[t].first, b) + 0.01;
        CHECK(v >= lo && v <= hi, "the time measured is ", v, " ms, it was between ", lo, " and ", hi);
        std::vector<double>& w = m->m_data[key(g, n)];
        CHECK(w.size() == R->data[key(g, n)].size() + 1 && w.back() == v, "the time measured, ", v, ", is not kept");
        R->data[key(g, n)].push_back(v);
      }
      if (both) R->timer[t] = std::make_pair(a, b);
      break;
    }
    default: if (r.below(20) == 0) reset(); else { c += "summary of '" + key(g, n) + "'; "; g_ctx = c; statistics(m, g, n, r.coin()); }
    }
    compare(m);
  }
  for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { statistics(m, NAMES[i], NAMES[j], true); statistics(m, NAMES[i], NAMES[j], false); }
  delete R;
}
void h_model(const std::string&, const Model&) { Rng r(1); for (int i = 0; i < 200; ++i) round_(r, h_now() + 5); }
void h_search(Rng& r, double until)
{
  for (int i = 0; i < 3000 && h_now() < until; ++i) round_(r, until);
}
