// common part of the native replay harnesses: run the real code, compare with an independent oracle
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <csignal>
static std::string g_ctx;           // description of the current input, printed on failure or crash
static void h_crash(int sig)
{
  const char* m = "FAIL: the code crashes or hangs; input: ";
  (void)!write(1, m, strlen(m));
  (void)!write(1, g_ctx.c_str(), g_ctx.size());
  (void)!write(1, "\n", 1);
  _exit(1);
}
static void h_init()
{
  signal(SIGSEGV, h_crash); signal(SIGABRT, h_crash); signal(SIGFPE, h_crash); signal(SIGBUS, h_crash); signal(SIGALRM, h_crash);
  signal(SIGILL, h_crash); signal(SIGTRAP, h_crash);
  g_ctx.reserve(65536);
}
[[noreturn]] static void fail(const std::string& s)
{
  fflush(stdout);
  std::cout << "FAIL: " << s << "\n  input: " << g_ctx << std::endl;
  _exit(1);
}
template <class... A> static std::string cat(const A&... a)
{
  std::ostringstream o;
  (void)std::initializer_list<int>{((o << a), 0)...};
  return o.str();
}
#define CHECK(c, ...) do { if (!(c)) fail(cat(__VA_ARGS__, "  [", #c, "]")); } while (0)
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
  bool coin() { return next() >> 63; }
};
static double h_now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
typedef std::map<std::string, std::string> Model;
static __int128 h_int(const Model& m, const std::string& k, __int128 d = 0)
{
  Model::const_iterator i = m.find(k);
  if (i == m.end()) return d;
  __int128 v = 0; bool neg = false;
  for (char c : i->second) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') v = v * 10 + (c - '0'); }
  return neg ? -v : v;
}
void h_model(const std::string& unit, const Model& m);
void h_search(Rng& r, double until);
int main(int argc, char** argv)
{
  h_init();
  if (argc >= 3 && !strcmp(argv[1], "model"))
  {
    Model m;
    for (int i = 3; i < argc; ++i) { std::string s(argv[i]); size_t p = s.find('='); if (p != std::string::npos) m[s.substr(0, p)] = s.substr(p + 1); }
    alarm(15);
    h_model(argv[2], m);
  }
  else if (argc >= 4 && !strcmp(argv[1], "search"))
  {
    Rng r(strtoull(argv[2], 0, 10));
    h_search(r, h_now() + atof(argv[3]));
  }
  std::cout << "OK" << std::endl;
  fflush(stdout);
  _exit(0);
}
