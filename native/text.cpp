// native search for C29: splitting, joining, trimming, padding, changing the case, names of values
#include "h.h"
#include <cctype>
#include <cstring>
#include <vector>
#include <string>
#include <icl_core/StringHelper.h>
#include <icl_core/EnumHelper.h>
using icl_core::String;
static std::string show(const std::vector<std::string>& v) { std::string r; for (const std::string& s : v) r += "[" + s + "]"; return r; }
static void split(const std::string& s, const std::string& d)
{
  g_ctx = cat("text '", s, "', delimiter '", d, "'");
  std::vector<std::string> want;
  size_t at = 0, e;
  while (!d.empty() && (e = s.find(d, at)) != std::string::npos) { want.push_back(s.substr(at, e - at)); at = e + d.size(); }
  if (at < s.size() || want.empty()) want.push_back(s.substr(at));
  std::vector<std::string> got = icl_core::split(s, d);
  CHECK(got == want, "split into ", show(got), ", ", show(want), " expected");
  std::string j = icl_core::join(got, d);
  CHECK(j == s || j + d == s, "joined again to '", j, "'");
}
static void join(const std::vector<std::string>& v, const std::string& d)
{
  g_ctx = cat("texts ", show(v), ", delimiter '", d, "'");
  std::string want;
  for (size_t i = 0; i < v.size(); ++i) { if (i) want += d; want += v[i]; }
  std::string got = icl_core::join(v, d);
  CHECK(got == want, "joined to '", got, "'");
}
static void trim(const std::string& s)
{
  g_ctx = cat("text '", s, "'");
  size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) ++a;
  while (b > a && isspace((unsigned char)s[b - 1])) --b;
  std::string got = icl_core::trim(s);
  CHECK(got == s.substr(a, b - a), "trimmed to '", got, "'");
}
static void pad(const std::string& s, size_t w, char c)
{
  g_ctx = cat("text '", s, "', width ", w, ", filled with '", c, "'");
  std::string f(w > s.size() ? w - s.size() : 0, c);
  std::string l = icl_core::padLeft<String>(s, w, c), r = icl_core::padRight<String>(s, w, c);
  CHECK(l == f + s, "padded to '", l, "'");
  CHECK(r == s + f, "padded to '", r, "'");
}
static void cases(const std::string& s)
{
  g_ctx = cat("text '", s, "'");
  std::string lo = s, up = s;
  for (size_t i = 0; i < s.size(); ++i) { lo[i] = char(tolower((unsigned char)s[i])); up[i] = char(toupper((unsigned char)s[i])); }
  std::string a = icl_core::toLower(s), b = icl_core::toUpper(s);
  CHECK(a == lo, "in lower case '", a, "'");
  CHECK(b == up, "in upper case '", b, "'");
}
template <class T> static void found(bool r, T v, T old, const std::vector<std::string>& names, const std::string& s)
{
  bool any = false;
  for (const std::string& n : names) any = any || n == s;
  CHECK(r == any, any ? "not found" : "found");
  if (r) CHECK(v >= 0 && size_t(v) < names.size() && names[size_t(v)] == s, "found as value ", v);
  else CHECK(v == old, "value changed to ", v);
}
static void names(const std::vector<std::string>& v, const std::string& s)
{
  g_ctx = cat("names ", show(v), ", text '", s, "'");
  int32_t a = -7; bool r = icl_core::string2Enum(s, a, v); found<int32_t>(r, a, -7, v, s);
  int64_t b = -7; r = icl_core::string2Enum(s, b, v); found<int64_t>(r, b, -7, v, s);
  std::vector<const char*> t;
  for (const std::string& n : v) t.push_back(n.c_str());
  t.push_back(0);
  a = 99; r = icl_core::string2Enum(s, a, t.data()); found<int32_t>(r, a, 99, v, s);
  for (const std::string& n : v) if (n == "end") return;
  char end[] = "end"; t.back() = end;
  a = 99; r = icl_core::string2Enum(s, a, t.data(), "end"); found<int32_t>(r, a, 99, v, s);
}
static std::string word(Rng& r, const char* al, size_t max)
{
  std::string s; size_t n = r.below(max + 1), m = strlen(al);
  for (size_t i = 0; i < n; ++i) s += al[r.below(m)];
  if (r.below(8) == 0) s = std::string(20, 'x') + s;
  return s;
}
void h_model(const std::string&, const Model&) {}
void h_search(Rng& r, double until)
{
  split("", ","); split("a", ","); split(",", ","); split("a,", ","); split(",a", ","); split("a,,b", ","); split(",,", ","); split("aaa", "aa"); split("a--b", "--"); split("", "");
  trim(""); trim(" "); trim("  "); trim("a"); trim(" a"); trim("a "); trim("\t a b\n\v\f\r"); { std::string s(100, 'x'); s.clear(); trim(s); }
  trim("\xa0" "a\x85"); trim(std::string("a\0 ", 3));
  pad("", 0, 'x'); pad("abc", 3, 'x'); pad("abc", 4, 'x'); pad("abc", 2, 'x');
  join({}, ","); join({""}, ","); join({"", ""}, ","); join({"a", "", "b"}, ", ");
  names({}, ""); names({"a", "b"}, "b"); names({"a", "b"}, ""); names({"ab"}, "a"); names({"a"}, "ab"); names({"a", "A"}, "A"); names({"", "x"}, "");
  { std::vector<std::string> v; for (int i = 0; i < 300; ++i) v.push_back(cat("n", i)); for (int i = 0; i < 300; i += 13) names(v, v[size_t(i)]); names(v, "n299"); names(v, "n256"); names(v, "n"); }
  split("abc", ""); split("a", "");
  for (int c = 0; c < 256; ++c) { std::string s(1, char(c)); cases(s); trim(s + "a" + s); cases("a" + s + "B"); }
  for (uint64_t k = 0; k < 150000 && h_now() < until; ++k)
  {
    split(word(r, "ab,;", 12), word(r, "ab,", 3));
    std::vector<std::string> v; size_t n = r.below(5);
    for (size_t i = 0; i < n; ++i) v.push_back(word(r, "abc", 3));
    join(v, word(r, ", ", 2));
    trim(word(r, " \t\nab", 10));
    pad(word(r, "ab ", 8), size_t(r.below(40)), r.coin() ? ' ' : '0');
    cases(word(r, "aBzZ@[`{19\xc4\xe4", 12));
    names(v, n && r.coin() ? v[size_t(r.below(n))] : word(r, "abc", 3));
  }
}
