// native search for C30: random options and command lines, compared with what the documentation promises
#include <boost/regex.hpp>
#include <boost/foreach.hpp>
#include <icl_core/BaseTypes.h>
#include <icl_core/List.h>
#include <icl_core/Map.h>
#include <icl_core/Vector.h>
#include "h.h"
#include <list>
struct Ended {};
namespace std { [[noreturn]] inline void h_exit(int) { throw Ended(); } }
using std::h_exit;
#define exit h_exit
#include "icl_core_config/GetoptParser.cpp"
#undef exit
using namespace icl_core::config;
typedef std::vector<std::string> Texts;
struct Def { std::string name, shrt; bool value, prefix; };
struct Pos { std::string name; bool optional; };
struct Case { std::vector<Def> defs; std::vector<Pos> pos; Texts args; bool extra, strict, clean, old; std::string delim; bool lists; };
typedef std::list<std::pair<std::string, std::string> > Pairs;
static std::string show(const Texts& v) { std::string r; for (const std::string& s : v) r += " '" + s + "'"; return r; }
static std::string show(const Pairs& v) { std::string r; for (const auto& s : v) r += " " + s.first + "=" + s.second; return r; }
static std::string describe(const Case& c)
{
  std::string r = "options";
  for (const Def& d : c.defs) r += " " + d.name + (d.value ? ":" : "") + "|" + d.shrt + (d.prefix ? "|prefix" : "");
  r += "; positional";
  for (const Pos& p : c.pos) r += " " + p.name + (p.optional ? "?" : "");
  return r + (c.extra ? "; extra arguments after '" + c.delim + "'" : "") + (c.strict ? "; strict" : "; relaxed") + (c.clean ? ", cleaning" : "") + "; arguments" + show(c.args);
}
struct Want
{
  std::map<std::string, std::string> opt;
  std::map<std::string, Pairs> pre;
  Texts kept, extra;
  int end;                          // 0 parsed, 1 failed, 2 program ended
};
static Want expect(const Case& c)
{
  Want w;
  w.end = 0;
  std::map<std::string, Def> t[4];
  Def help = {"help", "h", false, false};
  std::vector<Def> all(1, help);
  all.insert(all.end(), c.defs.begin(), c.defs.end());
  for (const Def& d : all)
  {
    t[d.prefix ? 1 : 0].insert(std::make_pair(d.name, d));
    if (!d.shrt.empty()) t[d.prefix ? 3 : 2].insert(std::make_pair(d.shrt, d));
  }
  Texts req, opt;
  for (const Pos& p : c.pos) (p.optional ? opt : req).push_back(p.name);
  size_t used = 0, n = c.args.size();
  for (size_t i = 0; i < n; ++i)
  {
    const std::string& a = c.args[i];
    bool lng = a.size() > 2 && a[0] == '-' && a[1] == '-' && a[2] != '-', sht = a.size() > 1 && a[0] == '-' && a[1] != '-';
    if (lng || sht)
    {
      size_t eq = lng ? a.find('=', 3) : std::string::npos;
      std::string name = lng ? a.substr(2, eq == std::string::npos ? eq : eq - 2) : a.substr(1), suffix;
      const Def* d = 0;
      const std::map<std::string, Def>&m = t[lng ? 0 : 2], &q = t[lng ? 1 : 3];
      if (m.count(name)) d = &m.find(name)->second;
      for (auto k = q.begin(); !d && k != q.end(); ++k)
        if (name.compare(0, k->first.size(), k->first) == 0) { d = &k->second; suffix = name.substr(k->first.size()); }
      if (!d)
      {
        if (c.strict) { w.end = 1; return w; }
        w.kept.push_back(a);
        continue;
      }
      std::string v = "yes";
      if (d->value)
      {
        if (lng ? eq == std::string::npos : i + 1 >= n) { w.end = 1; return w; }
        v = lng ? a.substr(eq + 1) : c.args[++i];
      }
      if (d->prefix) w.pre[d->name].push_back(std::make_pair(suffix, v));
      else w.opt[d->name] = v;
    }
    else if (c.extra && a == c.delim) { w.extra.assign(c.args.begin() + i + 1, c.args.end()); break; }
    else if (used < req.size()) w.opt[req[used++]] = a;
    else if (used < req.size() + opt.size()) w.opt[opt[used++ - req.size()]] = a;
    else w.kept.push_back(a);
  }
  if (used < req.size() || w.opt.count("help")) w.end = 2;
  return w;
}
static void look(const Getopt& g, const Want& w, const Texts& names)
{
  for (const std::string& n : names)
  {
    bool o = w.opt.count(n), p = w.pre.count(n);
    CHECK(g.paramOptPresent(n) == o, "option ", n);
    CHECK(g.paramOpt(n) == (o ? w.opt.find(n)->second : std::string()), "option ", n, " has the value '", g.paramOpt(n), "'");
    CHECK(g.paramPrefixOptPresent(n) == p, "prefix option ", n);
    Pairs got;
    Getopt::KeyValueList l = g.paramPrefixOpt(n);
    for (Getopt::KeyValueList::const_iterator i = l.begin(); i != l.end(); ++i) got.push_back(std::make_pair(i->m_key, i->m_value));
    CHECK(got == (p ? w.pre.find(n)->second : Pairs()), "prefix option ", n, " has the values", show(got));
  }
  CHECK(g.paramNonOptCount() == w.kept.size(), g.paramNonOptCount(), " arguments kept instead of", show(w.kept));
  for (size_t i = 0; i < w.kept.size(); ++i) CHECK(g.paramNonOpt(i) == w.kept[i], "argument '", g.paramNonOpt(i), "' kept");
  CHECK(g.paramNonOpt(w.kept.size()).empty(), "there is no such argument");
  CHECK(g.extraCmdParamCount() == w.extra.size(), g.extraCmdParamCount(), " extra arguments instead of", show(w.extra));
  for (size_t i = 0; i < w.extra.size(); ++i) CHECK(g.extraCmdParam(i) == w.extra[i], "extra argument '", g.extraCmdParam(i), "'");
}
struct Line
{
  Texts text;
  std::vector<char*> p;
  int n;
  explicit Line(const Texts& a) : text(a) { text.insert(text.begin(), "program"); for (std::string& s : text) p.push_back(&s[0]); p.push_back(0); n = int(text.size()); }
};
static void run(const Case& c)
{
  g_ctx = describe(c);
  alarm(15);
  Getopt g;
  CHECK(!g.isInitialized(), "nothing has been parsed yet");
  GetoptParameterList pl;
  GetoptPositionalParameterList ql;
  Texts names;
  names.push_back("help"); names.push_back("nothing"); names.push_back("");
  for (const Def& d : c.defs)
  {
    GetoptParameter p(d.name + (d.value ? ":" : ""), d.shrt, "help text", d.prefix);
    CHECK(p.option() == d.name && p.shortOption() == d.shrt && p.hasValue() == d.value && p.isPrefixOption() == d.prefix && p.help() == "help text", "option ", d.name, " is not what was given");
    if (c.lists) pl.push_back(p); else g.addParameter(p);
    names.push_back(d.name); names.push_back(d.shrt);
  }
  for (const Pos& q : c.pos)
  {
    GetoptPositionalParameter p(q.name, "help text", q.optional);
    if (c.lists) ql.push_back(p); else g.addParameter(p);
    names.push_back(q.name);
  }
  g.addParameter(pl);
  g.addParameter(ql);
  if (c.extra) g.activateExtraCmdParams(c.delim);
  Want w = expect(c);
  Line l(c.args);
  std::vector<char*> before = l.p;
  bool ok = false, ended = false;
  try { ok = c.old ? g.initialize(l.n, &l.p[0], c.clean) : g.initialize(l.n, &l.p[0], c.clean ? Getopt::eCLC_Cleanup : Getopt::eCLC_None, c.strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed); }
  catch (Ended&) { ended = true; }
  CHECK(ended == (w.end == 2), ended ? "the program ends" : "the program does not end");
  if (ended) return;
  CHECK(ok == (w.end == 0), ok ? "the command line is accepted" : "the command line is refused");
  CHECK(g.isInitialized() == ok, "what the parser says about having parsed");
  if (!ok || !c.clean)
  {
    CHECK(l.n == int(before.size()) - 1 && l.p == before, "the command line has been changed");
    if (!ok) return;
  }
  else
  {
    Texts left;
    for (int i = 1; i < l.n; ++i) left.push_back(l.p[i]);
    CHECK(left == w.kept, "left on the command line:", show(left));
    CHECK(l.n >= 1 && l.p[0] == before[0], "the name of the program has been removed");
  }
  CHECK(g.programName() == "program", "the program is called '", g.programName(), "'");
  look(g, w, names);
  Texts more;
  more.push_back("--other"); more.push_back("argument"); more.push_back("-h");
  Line again(more);
  std::vector<char*> same = again.p;
  bool r = false;
  try { r = g.initialize(again.n, &again.p[0], Getopt::eCLC_Cleanup, Getopt::ePRC_Strict); }
  catch (Ended&) { fail("parsing a second time ends the program"); }
  CHECK(r && again.n == 4 && again.p == same, "parsing a second time is not without effect");
  look(g, w, names);
}
static std::string pick(Rng& r, const char* const* v, size_t n) { return v[r.below(n)]; }
static Case make(Rng& r)
{
  static const char* const N[] = {"a", "b", "ab", "abc", "file", "file2", "a-b", "help", "n", "x1", "verbose"};
  static const char* const S[] = {"a", "b", "ab", "v", "x", "h", "", "", "vx"};
  static const char* const V[] = {"", "1", "value", "-a", "--b", "a=b", "=", "yes", "--", "two words", "-", "---x", "value"};
  Case c;
  for (size_t n = r.below(6); n--; )
  {
    Def d = {pick(r, N, 11), pick(r, S, 9), r.coin(), r.below(3) == 0};
    c.defs.push_back(d);
  }
  size_t n = r.below(r.coin() ? 3 : 7);
  for (size_t i = 0; i < n; ++i) { Pos p = {cat("p", r.below(7)), r.coin()}; c.pos.push_back(p); }
  c.extra = r.coin();
  static const char* const D[] = {"value", "++", "-a", "-x", "--ab", "", "--file=1"};
  c.delim = r.below(3) ? "--" : pick(r, D, 7);
  c.old = r.below(4) == 0;
  c.strict = c.old || r.below(3) == 0;
  c.clean = r.below(3) != 0;
  c.lists = r.coin();
  for (size_t k = r.below(r.below(3) ? 9 : 20); k--; )
  {
    std::string name = c.defs.empty() || r.below(6) == 0 ? pick(r, N, 11) : c.defs[r.below(c.defs.size())].name, sn = c.defs.empty() || r.below(6) == 0 ? pick(r, S, 9) : c.defs[r.below(c.defs.size())].shrt;
    std::string suf = r.below(3) ? "" : pick(r, N, 11);
    switch (r.below(5) ? r.below(7) : 5)
    {
      case 0: c.args.push_back("--" + name + suf); break;
      case 1: case 2: c.args.push_back("--" + name + suf + "=" + pick(r, V, 13)); break;
      case 3: case 4: c.args.push_back("-" + sn + suf); break;
      case 5: c.args.push_back(r.below(3) ? pick(r, V, 13) : c.delim); break;
      default: c.args.push_back(c.args.empty() ? "again" : c.args[r.below(c.args.size())]); break;
    }
  }
  return c;
}
static void quiet() { std::cerr.setstate(std::ios::failbit); }
static void fixed()
{
  for (int i = 0; i < 12; ++i)
  {
    const std::string t(size_t(i % 4), 'x'), o = t + (i & 1 ? ":" : "");
    GetoptParameter p(o, "s", "h", i > 5);
    CHECK(p.option() == t && p.hasValue() == bool(i & 1) && p.shortOption() == "s" && p.isPrefixOption() == (i > 5), "option '", o, "' is not what was given");
  }
  GetoptParameter c("a:b", "s", "h"), e("", "", "");
  CHECK(c.option() == "a:b" && !c.hasValue() && !c.isPrefixOption() && e.option().empty() && !e.hasValue(), "a colon within a name");
}
void h_search(Rng& r, double until)
{
  quiet();
  g_ctx = "options by themselves";
  fixed();
  for (long i = 0; i < 2000000 && h_now() < until; ++i) run(make(r));
}
void h_model(const std::string&, const Model&)
{
  Rng r(1);
  h_search(r, h_now() + 5);
}
