// native search for C27: a record holds what it is given, a line is what the format says, an UDP record is quoted and escaped
#include "h.h"
#include <sys/socket.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/UdpLogOutput.h>
#include <icl_core_logging/Logging.h>
using namespace icl_core::logging;
typedef icl_core::logging::LogLevel LL;
static const char* LEVELS[] = {"Trace", "Debug", "Info", "Warning", "Error", "Mute"};
struct Out : public LogOutputStream
{
  typedef LogOutputStream::LogMessage LM;
  std::string got; int lines;
  Out() : LogOutputStream("vcg", eLL_TRACE, false), lines(0) {}
  virtual ~Out() {}
  virtual void pushImpl(const icl_core::String& s) { got = s; ++lines; }
  void write(const LM& m) { LogOutputStream::pushImpl(m); }
};
typedef Out::LM LM;
static std::string rtext(Rng& r, size_t max)
{
  static const char al[] = "aZ09 ~'\\%()[]{}:<>_COD\xe4";
  size_t n = r.below(4) == 0 ? 0 : r.below(3) ? r.below(20) : (r.coin() ? r.below(max) : max - 3 + r.below(6));
  std::string s;
  for (size_t i = 0; i < n; ++i) s += al[r.below(sizeof al - 1)];
  return s;
}
// a text in memory of exactly its size
struct Exact { char* p; explicit Exact(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
struct Given
{
  std::string stream, file, cls, obj, fun, text; size_t line; int level; icl_core::TimeStamp t;
  explicit Given(Rng& r) : stream(rtext(r, 64)), file(rtext(r, 256)), cls(rtext(r, 64)), obj(rtext(r, 256)), fun(rtext(r, 64)), text(rtext(r, 2048)),
    line(r.below(5) ? r.below(100000) : r.next()), level(int(r.below(6))), t(time_t(r.below(4000000000u)), uint32_t(r.coin() ? r.below(200) * 1000000ull + r.below(1000000) : r.below(1000000000))) {}
  std::string show() const { return cat("stream '", stream, "' file '", file, "' line ", line, " class '", cls, "' object '", obj, "' function '", fun, "' level ", level, " time ", t.tsSec(), ".", t.tsNSec(), " text '", text, "'"); }
};
#define FIELD(a, g, what) do { size_t z = sizeof(a); std::string v(a, strnlen(a, z)); CHECK(v.size() < z, "the ", what, " is not terminated"); \
  CHECK(v == g.substr(0, z - 1), "the ", what, " is '", v, "' (", v.size(), " characters)"); } while (0)
static LM* make(const Given& g)
{
  Exact a(g.stream), b(g.file), c(g.cls), d(g.obj), e(g.fun), f(g.text);
  void* mem = malloc(sizeof(LM)); memset(mem, 0x5a, sizeof(LM));
  LM* m = new (mem) LM(g.t, LL(g.level), a.p, b.p, g.line, c.p, d.p, e.p, f.p);
  FIELD(m->log_stream, g.stream, "stream"); FIELD(m->filename, g.file, "file"); FIELD(m->class_name, g.cls, "class"); FIELD(m->object_name, g.obj, "object");
  FIELD(m->function_name, g.fun, "function"); FIELD(m->message_text, g.text, "text");
  CHECK(m->line == g.line && int(m->log_level) == g.level && m->timestamp.tsSec() == g.t.tsSec() && m->timestamp.tsNSec() == g.t.tsNSec(), "line, level or time of the record are not the ones given");
  return m;
}
static std::string rformat(Rng& r)
{
  static const char LET[] = "CODEFGLSTMCODEM";
  std::string f;
  int n = int(r.below(7));
  for (int i = 0; i < n; ++i)
  {
    if (r.coin()) { size_t k = r.below(6) ? r.below(12) : (r.coin() ? r.range(95, 105) : r.below(400)); for (size_t j = 0; j < k; ++j) f += "ab:CO% 9(["[r.below(10)]; }
    else
    {
      f += '~';
      if (r.below(3) == 0) f += cat(r.below(12));
      size_t k = r.below(3) ? r.below(4) : r.below(5) ? 0 : r.range(90, 110);
      for (size_t j = 0; j < k; ++j) f += "([{:x ~-)"[r.below(9)];
      if (r.below(12)) f += LET[r.below(15)];
    }
  }
  return f;
}
static std::string render(const std::string& f, const Given& g, const std::string& tf)
{
  std::string out; size_t i = 0;
  std::string cls = g.cls.substr(0, sizeof(LM::class_name) - 1), obj = g.obj.substr(0, sizeof(LM::object_name) - 1), fun = g.fun.substr(0, sizeof(LM::function_name) - 1);
  while (i < f.size())
  {
    if (f[i] != '~') { out += f[i++]; continue; }
    ++i; size_t width = 0;
    while (i < f.size() && f[i] >= '0' && f[i] <= '9') width = width * 10 + size_t(f[i++] - '0');
    size_t j = f.find_first_of("CODEFGLSTM", i);
    if (j == std::string::npos) break;
    std::string pre = f.substr(i, std::min<size_t>(j - i, 99)), suf = pre.empty() ? "" : pre[0] == '(' ? ")" : pre[0] == '[' ? "]" : pre[0] == '{' ? "}" : "";
    i = j + 1;
    switch (f[j])
    {
    case 'C': if (!cls.empty()) out += pre + cls; break;
    case 'O': if (!obj.empty()) out += pre + obj + suf; break;
    case 'D': if (!fun.empty()) out += pre + fun; break;
    case 'E': out += g.text.substr(0, sizeof(LM::message_text) - 1); break;
    case 'F': out += g.file.substr(0, sizeof(LM::filename) - 1); break;
    case 'G': out += std::to_string(g.line); break;
    case 'L': out += LEVELS[g.level]; break;
    case 'S': out += g.stream.substr(0, sizeof(LM::log_stream) - 1); break;
    case 'T': { char b[200]; time_t s = g.t.tsSec(); struct tm t; localtime_r(&s, &t); b[strftime(b, sizeof b, tf.c_str(), &t)] = 0; out += b; break; }
    default: { std::string s = std::to_string(g.t.tsNSec() / 1000000); if (s.size() < width) s.insert(0, width - s.size(), '0'); out += s; }
    }
  }
  return out;
}
static void lines(Rng& r)
{
  Out o;
  std::string prev = "<~T.~3M> ~S(~L)~ C~(O~::D: ~E", tf = "%Y-%m-%d %H:%M:%S";
  int n = 1 + int(r.below(4));
  for (int i = 0; i < n; ++i)
  {
    std::string f = i ? rformat(r) : r.coin() ? prev : rformat(r);
    Exact ef(f);
    g_ctx = cat("format '", f, "' (after '", prev, "')");
    o.changeLogFormat(ef.p);
    if (!f.empty()) prev = f;
    static const char* TF[] = {"%H:%M:%S", "%Y-%m-%d %H:%M:%S", "x", "[%d.%m.%Y %H:%M]"};
    if (r.below(3) == 0) { const char* t = TF[r.below(4)]; o.changeTimeFormat(t); tf = t; }
    for (int j = 0; j < 2; ++j)
    {
      Given g(r);
      g_ctx = cat("format '", prev, "' (last given '", f, "'), time format '", tf, "'; ", g.show());
      LM* m = make(g);
      int before = o.lines;
      o.write(*m);
      std::string want = render(prev, g, tf);
      CHECK(o.lines == before + 1, o.lines - before, " lines are written");
      CHECK(o.got == want, "the line written is '", o.got, "' instead of '", want, "'");
      free(m);
    }
  }
}
static std::string esc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\'') o += '\\'; o += s[i]; } return o; }
static void udp(Rng& r)
{
  static UdpLogOutput* o = 0; static int fd[2];
  if (!o)
  {
    std::streambuf* old = std::cerr.rdbuf(0);
    o = new UdpLogOutput("vcg-udp", "/VcgNoSuchPrefix", eLL_TRACE);
    std::cerr.rdbuf(old); std::cerr.clear();
    if (o->m_socket >= 0) close(o->m_socket);
    o->m_socket = -1;
    if (socketpair(AF_UNIX, SOCK_DGRAM, 0, fd)) return;
    o->m_socket = fd[0];
  }
  Given g(r);
  o->m_system_name = r.coin() ? "sys" : "";
  g_ctx = cat("UDP record, system '", o->m_system_name, "'; ", g.show());
  LM* m = make(g);
  o->pushImpl(*m);
  std::string want = cat("'", o->m_system_name, "','", g.t.formatIso8601(), "',", g.t.tsNSec(), ",'", LEVELS[g.level], "','", m->log_stream, "','", m->filename, "',", g.line, ",'", m->class_name, "','", esc(m->object_name), "','", m->function_name, "','", esc(m->message_text), "'");
  char b[20000]; ssize_t n = recv(fd[1], b, sizeof b, MSG_DONTWAIT);
  CHECK(n >= 0, "no record is sent");
  CHECK(std::string(b, size_t(n)) == want, "the record sent is ", std::string(b, size_t(n)), " instead of ", want);
  CHECK(recv(fd[1], b, sizeof b, MSG_DONTWAIT) < 0, "a second record is sent");
  free(m);
}
static void levels(Rng& r)
{
  int l = int(r.below(6));
  g_ctx = cat("level ", l);
  CHECK(std::string(logLevelDescription(LL(l))) == LEVELS[l], "its name is ", logLevelDescription(LL(l)));
  LL got = LL((l + 1) % 6);
  CHECK(stringToLogLevel(LEVELS[l], got) && int(got) == l, "the name ", LEVELS[l], " is taken for level ", int(got));
  std::string s = LEVELS[l]; if (r.coin()) s += "x"; else s.pop_back();
  got = LL(l);
  CHECK(!stringToLogLevel(s, got) && int(got) == l, "the text ", s, " is taken for a level");
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  icl_core::logging::initialize(); icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE);
  for (int i = 0; i < 20000 && h_now() < until; ++i) switch (i % 8) { case 0: case 1: udp(r); break; case 2: levels(r); break; default: lines(r); }
}
