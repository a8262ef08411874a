// native search for C26: messages assembled by several threads, completely or piece by piece, reach every output once and as they were given
#include "h.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <cmath>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingMacros_SLOGGING.h>
using namespace icl_core::logging;
typedef icl_core::logging::LogLevel LL;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static std::atomic<int> d_wait{0}, d_post{0}, d_push{0};
static thread_local bool watched = false;
extern "C" int sem_wait(sem_t* m)
{
  static auto g = real<int (*)(sem_t*)>("sem_wait");
  int r = g(m); if (watched && d_wait) usleep(d_wait); return r;
}
extern "C" int sem_post(sem_t* m)
{
  static auto g = real<int (*)(sem_t*)>("sem_post");
  int r = g(m); if (watched && d_post) usleep(d_post); return r;
}
struct Rec { std::string text, file, cls, obj; long line; int level; };
struct Out : public LogOutputStream
{
  std::vector<Rec> got;
  std::atomic<bool> busy{false}, removed{false};
  Out() : LogOutputStream("vcg", eLL_TRACE, false) { setLogLevel(eLL_TRACE); }
  virtual ~Out() {}
  virtual void pushImpl(const LogMessage& m)
  {
    CHECK(!removed, "an output is given the message '", m.message_text, "' after its removal has returned");
    CHECK(!busy.exchange(true), "an output is given two messages at the same time");
    Rec r; r.text = m.message_text; r.file = m.filename; r.cls = m.class_name; r.obj = m.object_name; r.line = m.line; r.level = m.log_level;
    CHECK(std::string("mine") == m.log_stream, "the name of the stream is '", m.log_stream, "'");
    got.push_back(r);
    if (d_push) usleep(d_push);
    busy = false;
  }
};
static const size_t CAP = 2046;
static std::string full(const std::string& s) { return (s.size() > CAP ? s.substr(0, CAP) : s) + "\n"; }
static void same(const Rec& g, const Rec& w, const std::string& what)
{
  CHECK(g.text == w.text, what, ": the text '", g.text.substr(0, 80), "' (", g.text.size(), " characters) is written, '", w.text.substr(0, 80), "' (", w.text.size(), " characters) was given");
  CHECK(g.level == w.level, what, ": the level is ", g.level, " instead of ", w.level);
  CHECK(g.line == w.line, what, ": the line is ", g.line, " instead of ", w.line);
  CHECK(g.file == w.file.substr(0, g.file.size()) && (g.file == w.file || g.file.size() >= 64), what, ": the file is '", g.file, "' instead of '", w.file, "'");
  CHECK(g.cls == w.cls.substr(0, g.cls.size()) && (g.cls == w.cls || g.cls.size() >= 64), what, ": the class is '", g.cls, "' instead of '", w.cls, "'");
  CHECK(g.obj == w.obj.substr(0, g.obj.size()) && (g.obj == w.obj || g.obj.size() >= 64), what, ": the object is '", g.obj, "' instead of '", w.obj, "'");
}
static std::string rtext(Rng& r, int max)
{
  int n = r.below(4) == 0 ? r.below(max) : r.below(30);
  std::string s(n, 'x');
  for (auto& c : s) c = char(33 + r.below(90));
  return s;
}
static Rec rrec(Rng& r)
{
  Rec x;
  static const int L[] = {0, 1, 15, 16, 254, 255, 256, 257, 2045, 2046, 2047, 2048, 2049, 2050, 5000};
  x.text = r.below(3) == 0 ? std::string(L[r.below(15)], char('a' + r.below(26))) : rtext(r, 3000);
  x.file = rtext(r, r.below(4) ? 60 : 3000); x.cls = rtext(r, r.below(4) ? 60 : 3000); x.obj = rtext(r, r.below(4) ? 60 : 3000);
  x.line = r.below(100000); x.level = r.below(6);
  return x;
}
static void give(LogStream& s, const Rec& x)
{
  SLOGGING_LOG_FLCO(s, LL(x.level), x.file.c_str(), x.line, x.cls.c_str(), x.obj.c_str(), x.text << icl_core::logging::endl);
}
static bool wanted(LogStream& s, const Rec& x, bool active, int level) { (void)s; return active && level <= x.level; }
static void one_thread(Rng& r)
{
  d_wait = d_post = d_push = 0;
  int level = r.below(6);
  LogStream* s = new LogStream("mine", LL(level));
  CHECK(s->getLogLevel() == LL(level) && s->isActive(), "a new stream has another level or is not active");
  std::vector<Out*> outs;
  for (int i = 0; i < 3; ++i) outs.push_back(new Out);
  std::vector<bool> in(3, false);
  bool active = true;
  std::string c0 = cat("one thread, level of the stream ", level);
  for (int k = 0; k < 30; ++k)
  {
    int op = r.below(10), i = r.below(3);
    g_ctx = cat(c0, ", step ", k);
    if (op == 0) { s->addOutputStream(outs[i]); in[i] = true; }
    else if (op == 1) { s->removeOutputStream(outs[i]); in[i] = false; }
    else if (op == 2) { active = r.coin(); s->setActive(active); CHECK(s->isActive() == active, "the stream is not active as told"); }
    else
    {
      Rec x = rrec(r);
      g_ctx += cat(": level ", x.level, ", text of ", x.text.size(), " characters, file '", x.file.substr(0, 40), "' class '", x.cls.substr(0, 40), "' object '", x.obj.substr(0, 40), "'");
      for (auto o : outs) o->got.clear();
      bool w = true;
      Rec y = x;
      y.text = full(x.text);
      if (op < 7) { give(*s, x); w = wanted(*s, x, active, level); }
      else
      {
        ThreadStream& t = s->threadStream(LL(x.level));
        t.setLineLogLevel(LL(x.level));
        y.file = y.cls = y.obj = ""; y.line = 0;
        if (r.coin()) { t.setFilename(x.file.c_str()); y.file = x.file; }
        if (r.coin()) { t.setClassname(x.cls.c_str()); y.cls = x.cls; }
        if (r.coin()) { t.setObjectname(x.obj.c_str()); y.obj = x.obj; }
        if (r.coin()) { t.setLine(x.line); y.line = x.line; }
        g_ctx += ", written in pieces, position texts partly left out";
        size_t p = 0;
        while (p < x.text.size()) { size_t n = 1 + r.below(x.text.size()); s->threadStream(LL(x.level)) << x.text.substr(p, n); p += n; }
        bool f = r.coin() && op != 9;
        if (f) { y.text = x.text.substr(0, CAP); t << icl_core::logging::flush; } else t << icl_core::logging::endl;
        if (op == 9) y.text = full(x.text);
      }
      for (int j = 0; j < 3; ++j)
      {
        size_t n = in[j] && w ? 1 : 0;
        CHECK(outs[j]->got.size() == n, "output ", j, " (", in[j] ? "" : "not ", "added) is given the message ", outs[j]->got.size(), " times instead of ", n);
        if (n) same(outs[j]->got[0], y, cat("output ", j));
      }
    }
  }
  delete s;
  for (auto o : outs) delete o;
}
template <class T> static void value(LogStream* s, Out* o, T v, const std::string& want, const char* type)
{
  g_ctx = cat("a value of type ", type, ", printed as '", want.substr(0, 60), "', is logged");
  o->got.clear();
  SLOGGING_ERROR((*s), "<" << v << ">" << icl_core::logging::endl);
  CHECK(o->got.size() == 1, "the message is given ", o->got.size(), " times");
  CHECK(o->got[0].text == "<" + want + ">\n", "the text is '", o->got[0].text, "'");
}
static uint64_t bits(Rng& r) { uint64_t x = r.next(); switch (r.below(5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << r.below(64); case 3: return (1ull << r.below(64)) - 1; default: return x >> r.below(64); } }
static void values(Rng& r)
{
  d_wait = d_post = d_push = 0;
  LogStream* s = new LogStream("mine", eLL_TRACE);
  Out* o = new Out;
  s->addOutputStream(o);
  for (int k = 0; k < 12; ++k)
  {
    uint64_t b = bits(r);
    value(s, o, uint8_t(b), cat(unsigned(uint8_t(b))), "uint8_t");
    value(s, o, uint16_t(b), cat(uint16_t(b)), "uint16_t");
    value(s, o, uint32_t(b), cat(uint32_t(b)), "uint32_t");
    value(s, o, uint64_t(b), cat(uint64_t(b)), "uint64_t");
    value(s, o, int8_t(b), cat(int(int8_t(b))), "int8_t");
    value(s, o, int16_t(b), cat(int16_t(b)), "int16_t");
    value(s, o, int32_t(b), cat(int32_t(b)), "int32_t");
    value(s, o, int64_t(b), cat(int64_t(b)), "int64_t");
    value(s, o, bool(b & 1), b & 1 ? "True" : "False", "bool");
    double x = (r.coin() ? -1 : 1) * std::ldexp(double(r.next() >> 11), int(r.below(k % 3 == 0 ? 971 : 60)) - 40);
    char buf[400];
    snprintf(buf, sizeof buf, "%f", x);
    value(s, o, x, buf, "double");
    snprintf(buf, sizeof buf, "%p", (void*)b);
    value(s, o, (void*)b, buf, "void*");
    std::string t = rtext(r, 100);
    value(s, o, t.c_str(), t, "const char*");
    int n = int(b);
    g_ctx = cat("printf of ", n, " after a beginning of ", t.size(), " characters");
    o->got.clear();
    ThreadStream& ts = s->threadStream(eLL_ERROR);
    ts << t;
    ts.printf("%d;%s\n", n, t.c_str());
    CHECK(o->got.size() == 1, "the message is given ", o->got.size(), " times");
    CHECK(o->got[0].text == t + cat(n, ";", t, "\n"), "the text is '", o->got[0].text, "'");
  }
  delete s; delete o;
}
struct Gate
{
  std::mutex m; std::condition_variable c; int n = 0, turn = 0, all;
  explicit Gate(int a) : all(a) {}
  void meet() { std::unique_lock<std::mutex> l(m); int t = turn; if (++n == all) { n = 0; ++turn; c.notify_all(); } else while (turn == t) c.wait(l); }
};
// every thread holds unfinished messages at the same time
static void held(Rng& r)
{
  d_wait = d_post = d_push = 0;
  int nt = r.below(3) ? 2 + r.below(6) : 34 + r.below(10), nl = 1 + r.below(6), rounds = 1 + r.below(3);
  g_ctx = cat(nt, " threads hold ", nl, " unfinished messages of different levels each, ", rounds, " rounds");
  LogStream* s = new LogStream("mine", eLL_TRACE);
  Out* o = new Out;
  s->addOutputStream(o);
  Gate g(nt);
  std::vector<std::thread> t;
  std::mutex m;
  std::set<ThreadStream*> bufs;
  for (int k = 0; k < nt; ++k) t.emplace_back([&, k]
  {
    for (int n = 0; n < rounds; ++n)
    {
      for (int l = 0; l < nl; ++l)
      {
        ThreadStream& b = s->threadStream(LL(l));
        { std::lock_guard<std::mutex> x(m); CHECK(bufs.insert(&b).second, "thread ", k, " is given a buffer for level ", l, " which is in use"); }
        b.setLineLogLevel(LL(l)); b.setLine(k); b.setFilename("f"); b.setClassname(cat("c", k).c_str()); b.setObjectname(cat("o", n).c_str());
        b << "<" << k;
      }
      g.meet();
      for (int l = nl - 1; l >= 0; --l)
      {
        ThreadStream& b = s->threadStream(LL(l));
        { std::lock_guard<std::mutex> x(m); CHECK(bufs.count(&b) == 1, "thread ", k, " does not continue the message of level ", l, " it has begun"); bufs.erase(&b); }
        b << ":" << n << ":" << l << ">" << icl_core::logging::endl;
      }
      g.meet();
    }
  });
  for (auto& x : t) x.join();
  std::set<std::string> seen;
  for (auto& x : o->got)
  {
    int k = -1, n = -1, l = -1; char e = 0;
    CHECK(sscanf(x.text.c_str(), "<%d:%d:%d>%c", &k, &n, &l, &e) == 4 && e == '\n' && k >= 0 && k < nt && n >= 0 && n < rounds && l >= 0 && l < nl, "a message nobody has given is written: '", x.text, "'");
    Rec w; w.text = cat("<", k, ":", n, ":", l, ">\n"); w.level = l; w.line = k; w.file = "f"; w.cls = cat("c", k); w.obj = cat("o", n);
    same(x, w, cat("message of thread ", k));
    CHECK(seen.insert(x.text).second, "the message '", x.text, "' is written twice");
  }
  CHECK(int(seen.size()) == nt * nl * rounds, seen.size(), " messages are written instead of ", nt * nl * rounds);
  delete s; delete o;
}
// threads log whole messages at the same time
static void concurrent(Rng& r)
{
  static const int D[] = {0, 0, 0, 50, 300, 1000};
  d_wait = D[r.below(6)]; d_post = D[r.below(6)]; d_push = D[r.below(5)];
  bool fast = d_wait + d_post + d_push == 0;
  int nt = 2 + r.below(4), each = fast ? 400 : 8, level = r.below(4), nout = 1 + r.below(2);
  g_ctx = cat(nt, " threads log ", each, " messages each, delays ", int(d_wait), " ", int(d_post), " ", int(d_push), " us, level of the stream ", level);
  LogStream* s = new LogStream("mine", LL(level));
  std::vector<Out*> outs;
  for (int i = 0; i < nout; ++i) { outs.push_back(new Out); s->addOutputStream(outs[i]); }
  Out extra;
  std::vector<std::vector<Rec>> given(nt);
  Rng q(r.next());
  for (int k = 0; k < nt; ++k) for (int n = 0; n < each; ++n)
  {
    Rec x; x.text = cat("<", k, ":", n, ">") + std::string(q.below(200), char('a' + k)); x.file = cat("f", k); x.cls = cat("c", n); x.obj = cat("o", k); x.line = n; x.level = q.below(6);
    given[k].push_back(x);
  }
  std::vector<std::thread> t;
  std::atomic<bool> stop{false};
  for (int k = 0; k < nt; ++k) t.emplace_back([&, k] { watched = true; for (auto& x : given[k]) give(*s, x); });
  std::thread other([&] { for (int i = 0; i < 400 && !stop; ++i) { extra.removed = false; s->addOutputStream(&extra); if (d_push) usleep(d_push); s->removeOutputStream(&extra); extra.removed = true; if (d_push) usleep(100); } });
  for (auto& x : t) x.join();
  stop = true;
  other.join();
  outs.push_back(&extra);
  for (size_t j = 0; j < outs.size(); ++j)
  {
    std::vector<int> next(nt, 0);
    for (auto& x : outs[j]->got)
    {
      int k = -1, n = -1; char e = 0;
      CHECK(sscanf(x.text.c_str(), "<%d:%d%c", &k, &n, &e) == 3 && e == '>' && k >= 0 && k < nt && n >= 0 && n < each, "a message nobody has given is written: '", x.text, "'");
      Rec w = given[k][n];
      w.text += "\n";
      same(x, w, cat("message ", n, " of thread ", k));
      CHECK(w.level >= level, "a message of level ", w.level, " is written");
      CHECK(n >= next[k], "message ", n, " of thread ", k, " is written twice or too late");
      if (outs[j] != &extra) for (int i = next[k]; i < n; ++i) CHECK(given[k][i].level < level, "message ", i, " of thread ", k, " is not written");
      next[k] = n + 1;
    }
    if (outs[j] != &extra) for (int k = 0; k < nt; ++k) for (int i = next[k]; i < each; ++i) CHECK(given[k][i].level < level, "message ", i, " of thread ", k, " is not written");
  }
  outs.pop_back();
  delete s;
  for (auto o : outs) delete o;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  icl_core::logging::initialize(); icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE);
  for (int i = 0; i < 20000 && h_now() < until; ++i) switch (i % 6) { case 0: case 2: one_thread(r); break; case 1: values(r); break; case 3: held(r); break; default: concurrent(r); }
}
