// native search for C35: log files in a scratch directory against a model of the lines they have to hold
#include "h.h"
#include <filesystem>
#include <fstream>
#include <zlib.h>
#include <ctime>
#include <icl_core/os_fs.h>
#include <icl_core/TimeStamp.h>
#include <icl_core_logging/FileLogOutput.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_config/Config.h>
typedef icl_core::logging::FileLogOutput Out;
namespace fs = std::filesystem;
static const std::string HEAD = "\n\n-------------FILE (RE-)OPENED------------------\n";
static std::string unzip(const std::string& name)
{
  std::string s;
  gzFile f = gzopen(name.c_str(), "rb");
  if (!f) return "(no file)";
  char b[4096];
  int n;
  while ((n = gzread(f, b, sizeof b)) > 0) s.append(b, n);
  gzclose(f);
  return s;
}
static std::string plain(const std::string& name) { std::ifstream f(name); if (!f) return "(no file)"; std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string lines(std::string s)
{
  for (size_t i; (i = s.find(HEAD)) != std::string::npos; ) s.erase(i, HEAD.size());
  return s;
}
static std::string shorten(const std::string& s) { return s.size() > 160 ? s.substr(0, 80) + "..." + s.substr(s.size() - 60) : s; }
static std::string text(Rng& r, int& c)
{
  std::string s = cat("line ", c++, " ");
  size_t n = r.below(8) ? r.below(20) : r.below(3) ? r.below(700) : r.below(30000);
  for (size_t i = 0; i < n; ++i) s += r.below(6) ? char('a' + r.below(26)) : char(32 + r.below(95));
  return s + "\n";
}
static void packing(Rng& r)
{
  fs::create_directory("z");
  size_t n = r.below(3) ? r.below(40) : r.below(3) ? 4096 * r.below(6) + r.below(3) : r.below(60000);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += char(32 + r.below(90));
  { std::ofstream f("z/in"); f << s; }
  int how = int(r.below(6));
  g_ctx = cat("packing a file of ", n, " bytes", how == 1 ? ", the archive cannot be created" : how == 2 ? ", the disk is full" : how == 3 ? ", there is no such file" : how == 4 ? ", a directory" : "");
  if (how == 1) fs::create_directory("z/in.x.gz");
  if (how == 2) fs::create_symlink("/dev/full", "z/in.x.gz");
  if (how == 3) fs::remove("z/in");
  if (how == 4) { fs::remove("z/in"); fs::create_directory("z/in"); }
  bool ok = icl_core::os::zipFile("z/in", ".x");
  if (how == 0 || how == 5)
  {
    CHECK(ok, "no success is reported");
    std::string t = unzip("z/in.x.gz");
    CHECK(t == s, "the archive holds ", t.size(), " bytes: ", shorten(t));
    CHECK(plain("z/in") == s, "the file is changed");
  }
  else CHECK(!ok, "success is reported although the file is not in the archive");
  fs::remove_all("z");
}
static void logging(Rng& r)
{
  if (time(0) % 86400 > 86380) return;          // the day is about to end
  fs::create_directory("d");
  const std::string name = "d/log";
  bool zip = r.below(3) == 0, flush = r.below(4) != 0;
  std::string cur;
  std::map<std::string, std::string> arch;
  int c = 0;
  long today = time(0) / 86400;
  std::set<long> used;
  g_ctx = cat(zip ? "compressed log" : "plain log", flush ? ", flushed" : "", ":");
  if (!zip && r.below(3) == 0) { cur = "old line\n"; std::ofstream f(name); f << cur; g_ctx += " found"; }
  {
    std::streambuf* e = std::cerr.rdbuf();
    std::ostringstream quiet;
    Out* o;
    if (zip)
    {
      o = new Out("log", "d/first", icl_core::logging::eLL_INFO, flush);
      o->closeLogFile();
      o->m_online_zip = true;
      o->m_filename = name;
    }
    else o = new Out("log", name, icl_core::logging::eLL_INFO, flush);
    o->m_rotate = r.below(4) != 0;
    o->m_last_rotation = today;
    if (o->m_rotate) g_ctx += " rotating";
    int steps = int(r.range(1, 12));
    for (int k = 0; k < steps; ++k)
    {
      int w = int(r.below(10));
      if (w < 6)
      {
        std::string t = text(r, c);
        g_ctx += cat(" line(", t.size(), ")");
        o->pushImpl(t);
        cur += t;
        CHECK(o->isOpen(), "the log is not open");
        if (!zip && flush) CHECK(lines(plain(name)) == cur, "the log holds '", shorten(lines(plain(name))), "' instead of '", shorten(cur), "'");
      }
      else if (w < 9)
      {
        long day;
        do day = r.range(today - 20000 > 0 ? today - 20000 : 0, today - 1); while (used.count(day));
        used.insert(day);
        time_t tt = day * 86400 + 43200;
        char ext[32];
        strftime(ext, sizeof ext, ".%Y-%m-%d", gmtime(&tt));
        std::string to = name + ext + (zip ? "" : ".gz");
        bool was = fs::exists(name);
        int how = int(r.below(4));
        if (how == 1) fs::create_directory(to);
        if (how == 2 && !zip) fs::create_symlink("/dev/full", to);
        bool bad = how == 1 || (how == 2 && !zip);
        g_ctx += cat(" last-day", ext, bad ? "(cannot be kept)" : "");
        o->m_last_rotation = day;
        bool direct = r.coin();
        std::string t = text(r, c);
        std::cerr.rdbuf(quiet.rdbuf());
        if (direct) o->rotateLogFile(); else { g_ctx += cat(" line(", t.size(), ")"); o->pushImpl(t); }
        std::cerr.rdbuf(e);
        if (o->m_rotate)
        {
          if (!bad && was) { arch[to] = cur; cur.clear(); }
          CHECK(o->m_last_rotation == today, "the day of the last rotation is ", o->m_last_rotation);
          CHECK(o->isOpen(), "the log is not open");
        }
        else o->m_last_rotation = today;
        if (!direct) cur += t;
        if (!zip && flush) { std::string x = lines(plain(name)); if (x == "(no file)") x = ""; CHECK(x == cur, "the log holds '", shorten(x), "' instead of '", shorten(cur), "'"); }
        for (auto& a : arch) { std::string x = lines(unzip(a.first)); CHECK(x == a.second, a.first, " holds '", shorten(x), "' instead of '", shorten(a.second), "'"); }
      }
      else { g_ctx += " close"; o->closeLogFile(); CHECK(!o->isOpen(), "the log is still open"); }
    }
    o->closeLogFile();
    std::string x = fs::exists(name) ? lines(zip ? unzip(name) : plain(name)) : std::string();
    CHECK(x == cur, "the log holds '", shorten(x), "' instead of '", shorten(cur), "'");
    for (auto& a : arch) { std::string y = lines(unzip(a.first)); CHECK(y == a.second, a.first, " holds '", shorten(y), "' instead of '", shorten(a.second), "'"); }
    delete o;
  }
  fs::remove_all("d");
}
static void round_(Rng& r) { if (r.coin()) packing(r); else logging(r); }
static void setup()
{
  char t[] = "c35XXXXXX";                       // a directory of its own below the working directory
  if (!mkdtemp(t) || chdir(t)) _exit(0);
}
void h_model(const std::string&, const Model&) { setup(); Rng r(1); for (int i = 0; i < 150; ++i) round_(r); }
void h_search(Rng& r, double until) { setup(); for (int i = 0; i < 20000 && h_now() < until; ++i) round_(r); }
