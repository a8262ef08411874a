// native search for C31: random parameters, command lines, configuration files and observers, compared with what the documentation promises
#include <boost/regex.hpp>
#include <boost/foreach.hpp>
#include <icl_core/BaseTypes.h>
#include <icl_core/List.h>
#include <icl_core/Map.h>
#include <icl_core/Vector.h>
#include "h.h"
#include <list>
#include <fstream>
#include <sys/stat.h>
struct Ended {};
namespace std { [[noreturn]] inline void h_exit(int) { throw Ended(); } }
using std::h_exit;
#define exit h_exit
#include "icl_core_config/GetoptParser.cpp"
#undef exit
#include "icl_core/KeyValueDirectory.hpp"
#include "icl_core_config/Config.h"
#include "icl_core_config/ConfigManager.h"
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/ConfigPositionalParameter.h"
using namespace icl_core::config;
typedef std::vector<std::string> Texts;
typedef std::map<std::string, std::string> Map;
static std::string g_dir;
static std::string show(const Texts& v) { std::string r; for (const std::string& s : v) r += " '" + s + "'"; return r; }
static std::string show(const Map& v) { std::string r; for (const auto& s : v) r += " '" + s.first + "'='" + s.second + "'"; return r; }
struct Par { std::string option, shrt, key, def; bool pos; };
struct Case { std::vector<Par> pars; Texts args; std::vector<std::pair<std::string, std::string> > file; int kind; Texts watch, late, set; bool lists, both; size_t split; };
static std::string describe(const Case& c)
{
  std::string r = "parameters";
  for (const Par& p : c.pars) r += " " + p.option + (p.pos ? " (positional)" : "|" + p.shrt) + "->" + p.key + " default '" + p.def + "';";
  r += " arguments" + show(c.args) + "; file " + (c.kind == 0 ? "not given" : c.kind == 1 ? "missing" : "given:");
  for (const auto& f : c.file) r += " " + f.first + "=" + f.second;
  return r + "; observers of" + show(c.watch) + "; later" + show(c.late) + "; values set later" + show(c.set);
}
struct Obs : ConfigObserver
{
  std::string key;
  Texts told;
  const Map* now;
  Obs(const std::string& k, const Map* m) : key(k), now(m) {}
  virtual void valueChanged(const icl_core::String& k)
  {
    std::string v;
    CHECK(ConfigManager::instance().get(k, v), "an observer is told of the key ", k, " that is not there");
    told.push_back(k + "=" + v);
  }
};
static void same(const Map& want, const Texts& keys, const std::string& when)
{
  Texts l = keys;
  for (const auto& x : want) l.push_back(x.first);
  for (const std::string& k : l)
  {
    std::string v = "unchanged", w = want.count(k) ? want.find(k)->second : v;
    bool h = want.count(k);
    CHECK(ConfigManager::instance().hasKey(k) == h, when, ": presence of the key '", k, "'");
    CHECK(ConfigManager::instance().get(k, v) == h && v == w, when, ": the key '", k, "' has the value '", v, "' instead of '", w, "'");
    v = "unchanged";
    CHECK(get<icl_core::String>(k, v) == h && v == w, when, ": the key '", k, "' is read as '", v, "'");
    CHECK(getDefault<icl_core::String>(k, icl_core::String("default")) == (h ? w : std::string("default")), when, ": reading the key '", k, "' with a default");
  }
  ConfigIterator it = find(".*");
  Map got;
  std::string last;
  while (it.next())
  {
    CHECK(got.empty() || last < it.key(), when, ": the search is not in order");
    CHECK(got.size() <= want.size(), when, ": the search finds too much");
    got[last = it.key()] = it.value();
  }
  CHECK(got == want, when, ": all keys are", show(got), " instead of", show(want));
}
static void run(const Case& c)
{
  g_ctx = describe(c);
  alarm(20);
  Getopt& g = Getopt::instance();
  ConfigManager& m = ConfigManager::instance();
  m.~ConfigManager();
  g.~Getopt();
  new (&g) Getopt;
  new (&m) ConfigManager;
  CHECK(!m.isInitialized(), "nothing has been initialised yet");
  Map want;
  ConfigParameterList pl;
  ConfigPositionalParameterList ql;
  Texts keys;
  keys.push_back("/nothing"); keys.push_back("");
  for (const Par& p : c.pars)
  {
    keys.push_back(p.key);
    if (p.pos)
    {
      ConfigPositionalParameter x(p.option, p.key, "help", true, p.def);
      CHECK(x.configKey() == p.key && x.defaultValue() == p.def && x.hasDefaultValue() == !p.def.empty() && x.name() == p.option, "a positional parameter is not what was given");
      if (c.lists) ql.push_back(x); else m.addParameter(x);
    }
    else
    {
      ConfigParameter x(p.option + ":", p.shrt, p.key, "help", p.def);
      CHECK(x.configKey() == p.key && x.defaultValue() == p.def && x.hasDefaultValue() == !p.def.empty() && x.option() == p.option && x.shortOption() == p.shrt, "a parameter is not what was given");
      if (c.lists) pl.push_back(x); else m.addParameter(x);
    }
  }
  m.addParameter(pl);
  m.addParameter(ql);
  std::vector<Obs*> obs;
  for (const std::string& k : c.watch) { obs.push_back(new Obs(k, &want)); m.registerObserver(obs.back(), k); CHECK(obs.back()->told.empty(), "an observer is told of a key that is not there"); }
  Texts a = c.args;
  a.insert(a.begin(), "program");
  const std::string file = g_dir + (c.kind == 1 ? "/missing.xml" : "/config.xml");
  if (c.kind) a.push_back("--configfile=" + file);
  if (c.kind == 2)
  {
    std::ofstream f(file.c_str()), inc((g_dir + "/included.xml").c_str());
    f << "<root>\n";
    inc << "<other>";
    size_t k = 0;
    for (const auto& x : c.file)
    {
      std::ostream& o = k++ < c.split ? f : inc;
      std::string open, close, part;
      std::istringstream in(x.first);
      while (std::getline(in, part, '/')) { open += "<" + part + ">"; close = "</" + part + ">" + close; }
      o << (k & 1 ? "<!-- comment -->" : "") << open << x.second << close << "\n";
    }
    inc << "</other>";
    if (c.split < c.file.size()) f << "<INCLUDE>included.xml</INCLUDE><INCLUDE>included.xml</INCLUDE><last>text</last>";
    f << "</root>\n";
  }
  std::vector<char*> av;
  for (std::string& s : a) av.push_back(&s[0]);
  av.push_back(0);
  int n = int(a.size());
  bool ok = false, parsed;
  if (c.both)
  {
    try { ok = initialize(n, &av[0], Getopt::eCLC_None, Getopt::ePRC_Relaxed); } catch (Ended&) { for (Obs* o : obs) delete o; return; }
    parsed = g.isInitialized();
  }
  else
  {
    try { parsed = g.initialize(n, &av[0], Getopt::eCLC_None, Getopt::ePRC_Relaxed); } catch (Ended&) { for (Obs* o : obs) delete o; return; }
    if (parsed) ok = m.initialize();
  }
  if (!parsed)
  {
    CHECK(!ok && !m.isInitialized(), "the command line is refused, the configuration is not");
    same(want, keys, "after the command line has been refused");
    for (Obs* o : obs) { CHECK(o->told.empty(), "an observer is told although nothing is stored"); delete o; }
    return;
  }
  // what has to be stored, in turn
  std::vector<std::pair<std::string, std::string> > ev;
  bool wantok = true;
  if (g.paramOptPresent("configfile"))
  {
    std::ifstream f(g.paramOpt("configfile").c_str());
    wantok = c.kind == 2 && g.paramOpt("configfile") == file;
    if (wantok)
    {
      size_t k = 0;
      for (const auto& x : c.file) if (k++ < c.split && !x.second.empty()) ev.push_back(std::make_pair("/" + x.first, x.second));
      for (int twice = 0; twice < 2; ++twice)
        for (size_t i = c.split; i < c.file.size(); ++i) if (!c.file[i].second.empty()) ev.push_back(std::make_pair("/" + c.file[i].first, c.file[i].second));
      if (c.split < c.file.size()) ev.push_back(std::make_pair(std::string("/last"), std::string("text")));
      ev.push_back(std::make_pair("/configfile", file));
    }
  }
  for (const auto& e : ev) want[e.first] = e.second;
  if (wantok)
  {
    for (int pos = 0; pos < 2; ++pos)
    {
      std::vector<Par> l = c.pars;
      if (!pos) { Par x = {"configfile", "c", "/configfile", "", false}; l.insert(l.begin(), x); }
      for (const Par& p : l)
      {
        if (p.pos != bool(pos) || p.key.empty()) continue;
        if (g.paramOptPresent(p.option)) ev.push_back(std::make_pair(p.key, std::string(g.paramOpt(p.option))));
        else if (!want.count(p.key) && !p.def.empty()) ev.push_back(std::make_pair(p.key, p.def));
        else continue;
        want[p.key] = ev.back().second;
      }
    }
    Getopt::KeyValueList l = g.paramPrefixOpt("config-option");
    for (Getopt::KeyValueList::const_iterator i = l.begin(); i != l.end(); ++i) { ev.push_back(std::make_pair(i->m_key, i->m_value)); want[i->m_key] = i->m_value; }
  }
  CHECK(ok == wantok && m.isInitialized() == wantok, ok ? "the configuration is accepted" : "the configuration is refused");
  same(want, keys, "after initialisation");
  for (Obs* o : obs)
  {
    Texts w;
    for (const auto& e : ev) if (o->key.empty() || o->key == e.first) w.push_back(e.first + "=" + e.second);
    CHECK(o->told == w, "the observer of '", o->key, "' is told of", show(o->told), " instead of", show(w));
    o->told.clear();
  }
  if (ok)
  {
    CHECK(m.initialize(), "initialising a second time fails");
    same(want, keys, "after initialising a second time");
    for (Obs* o : obs) CHECK(o->told.empty(), "initialising a second time tells observers");
  }
  size_t before = obs.size();
  for (const std::string& k : c.late)
  {
    Obs* o = new Obs(k, &want);
    obs.push_back(o);
    m.registerObserver(o, k);
    Texts w;
    for (const auto& x : want) if (k.empty() || k == x.first) w.push_back(x.first + "=" + x.second);
    CHECK(o->told == w, "the new observer of '", k, "' is told of", show(o->told), " instead of", show(w));
    o->told.clear();
  }
  std::vector<bool> gone(obs.size(), false);
  for (size_t i = 0; i < c.set.size(); ++i)
  {
    if (i % 3 == 2 && !obs.empty()) { size_t j = (i * 7 + c.set[i].size()) % obs.size(); m.unregisterObserver(obs[j]); gone[j] = true; }
    std::string k = c.set[i], v = cat("value ", i);
    if (k == "/configfile" || k.empty()) continue;
    switch (i % 4)
    {
      case 0: CHECK(m.setValue<icl_core::String>(k, v) == !want.count(k), "setting the key '", k, "' says whether it is new"); break;
      case 1: setValue(k, v); break;
      case 2: v = cat(i); setValue<int>(k, int(i)); break;
      default: v = cat(i); CHECK(m.setValue<int>(k, int(i)) == !want.count(k), "setting the key '", k, "' says whether it is new");
    }
    want[k] = v;
    keys.push_back(k);
    same(want, keys, "after setting a value");
    for (size_t j = 0; j < obs.size(); ++j)
    {
      Texts w;
      if (!gone[j] && (obs[j]->key.empty() || obs[j]->key == k)) w.push_back(k + "=" + v);
      CHECK(obs[j]->told == w, "the observer of '", obs[j]->key, "' is told of", show(obs[j]->told), " instead of", show(w));
      obs[j]->told.clear();
    }
  }
  for (Obs* o : obs) delete o;
}
static std::string pick(Rng& r, const char* const* v, size_t n) { return v[r.below(n)]; }
static void search(Rng& r)
{
  static const char* const K[] = {"/a", "/a/b", "/a/c", "/ab", "/b", "a", "", "/a.b", "/axb", "/a/b/c", "/sizes[1]", "/x+y"};
  static const char* const Q[] = {".*", "/a", "/a/.*", "/a/([^/]*)", "/(.)(.*)", "/a.b", "nothing", "", "(/a)?(.*)c", "/(a|b)", "(.*)/([a-z])"};
  icl_core::KeyValueDirectory<icl_core::String> d;
  Map want;
  Texts tried;
  for (size_t n = r.below(14); n--; )
  {
    std::string k = pick(r, K, 12), v = cat(n);
    CHECK(d.insert(k, v) == !want.count(k), "storing the key '", k, "' says whether it is new");
    want[k] = v;
  }
  g_ctx = "entries" + show(want);
  for (size_t i = 0; i < 12; ++i)
  {
    std::string v = "unchanged", k = K[i];
    CHECK(d.hasKey(k) == bool(want.count(k)) && d.get(k, v) == bool(want.count(k)) && v == (want.count(k) ? want[k] : "unchanged"), "the key '", k, "'");
  }
  std::string q = pick(r, Q, 11);
  g_ctx += " searched for " + q;
  icl_core::KeyValueDirectoryIterator<icl_core::String> it = d.find(q);
  for (int pass = 0; pass < 2; ++pass)
  {
    boost::regex rx(q);
    size_t stop = r.below(8);
    bool all = true;
    for (const auto& x : want)
    {
      boost::smatch g;
      if (!boost::regex_match(x.first, g, rx)) continue;
      if (!pass && !stop--) { all = false; break; }
      CHECK(it.next(), "the entry '", x.first, "' is not found");
      CHECK(it.key() == x.first && it.value() == x.second, "'", it.key(), "'='", it.value(), "' is found instead of '", x.first, "'");
      for (size_t i = 0; i < 4; ++i) CHECK(it.matchGroup(i) == (i < g.size() ? std::string(g[int(i)]) : ""), "group ", i, " of '", x.first, "' is '", it.matchGroup(i), "'");
      CHECK(it.matchGroup(size_t(-1)).empty() && it.matchGroup(1u << 31).empty(), "there is no such group");
    }
    if (all) for (int i = 0; i < 3; ++i) CHECK(!it.next(), "there are more entries than there are");
    it.reset();
  }
}
static Case make(Rng& r)
{
  static const char* const O[] = {"a", "ab", "size", "speed", "name"};
  static const char* const K[] = {"/a", "/b", "/size", "/a/b", "/a.b", "", "/axb", "/sizes[1]", "/x+y", "plain"};
  static const char* const V[] = {"", "1", "value", "two words", "/a", "yes"};
  static const char* const F[] = {"a", "b", "size", "axb", "a/b", "a.b", "a/INC/b"};
  Case c;
  for (size_t n = r.below(5); n--; )
  {
    Par p = {pick(r, O, 5), "", pick(r, K, 10), pick(r, V, 6), r.below(3) == 0};
    if (p.pos) p.option = cat("p", c.pars.size());
    else p.shrt = p.option.substr(0, r.below(3));
    c.pars.push_back(p);
  }
  for (size_t n = r.below(6); n--; )
    switch (r.below(5))
    {
      case 0: c.args.push_back("--" + pick(r, O, 5) + "=" + pick(r, V, 6)); break;
      case 1: c.args.push_back("-o" + pick(r, K, 10)); c.args.push_back(pick(r, V, 6)); break;
      case 2: c.args.push_back("--config-option" + pick(r, K, 10) + "=" + pick(r, V, 6)); break;
      case 3: c.args.push_back(pick(r, V + 1, 5)); break;
      default: if (r.below(4) == 0) c.args.push_back("--size"); else if (!c.pars.empty() && !c.pars[0].pos) c.args.push_back("--" + c.pars[0].option + "=" + pick(r, V, 6));
    }
  c.kind = r.below(3) ? (r.below(5) ? 2 : 1) : 0;
  if (c.kind == 2) for (size_t n = r.below(5); n--; ) c.file.push_back(std::make_pair(pick(r, F, 7), pick(r, V, 6)));
  for (size_t n = r.below(4); n--; ) c.watch.push_back(r.below(3) ? pick(r, K, 10) : "");
  for (size_t n = r.below(4); n--; ) c.late.push_back(r.below(3) ? pick(r, K, 10) : "");
  for (size_t n = r.below(6); n--; ) c.set.push_back(pick(r, K, 10));
  // the keys told twice for the empty key are left open
  c.lists = r.coin();
  c.both = r.coin();
  c.split = r.below(3) ? 9 : r.below(4);
  for (std::string& a : c.args) if (a == "-o" || a.compare(0, 16, "--config-option=") == 0) a += a == "-o" ? "/b" : "";
  Texts l;
  for (const std::string& a : c.args) if (a.compare(0, 16, "--config-option=") != 0) l.push_back(a);
  c.args = l;
  return c;
}
static void quiet() { std::cerr.setstate(std::ios::failbit); std::cout.flush(); }
void h_search(Rng& r, double until)
{
  quiet();
  char t[] = "/tmp/config.XXXXXX";
  g_dir = mkdtemp(t);
  for (long i = 0; i < 300000 && h_now() < until; ++i) { run(make(r)); for (int k = 0; k < 3; ++k) search(r); }
  unlink((g_dir + "/config.xml").c_str());
  unlink((g_dir + "/included.xml").c_str());
  rmdir(g_dir.c_str());
}
void h_model(const std::string&, const Model&)
{
  Rng r(1);
  h_search(r, h_now() + 5);
}
