#include "h.h"
#include <icl_core/RingBuffer.h>
#include <icl_core/tRingBuffer.h>
typedef icl_core::RingBuffer<uint32_t> RB;
typedef icl_core::tRingBuffer<uint32_t> TRB;
typedef std::deque<uint32_t> Q;
template <class F> static int thrown(F f) { try { f(); return 0; } catch (const std::out_of_range&) { return 1; } catch (...) { return 2; } }
static void log(const std::string& s) { g_ctx += s; if (g_ctx.size() > 6000) g_ctx = "..." + g_ctx.substr(g_ctx.size() - 3000); }
static void same(RB& b, const Q& q, size_t cap)
{
  const RB& c = b;
  CHECK(c.size() == q.size(), "size() is ", c.size(), ", expected ", q.size());
  CHECK(c.capacity() == cap, "capacity() is ", c.capacity(), ", expected ", cap);
  CHECK(c.reserve() == cap - q.size(), "reserve() is ", c.reserve());
  CHECK(c.empty() == q.empty() && c.full() == (q.size() == cap), "empty()/full()");
  for (size_t i = 0; i < q.size(); ++i) { CHECK(c.at(i) == q[i] && b.at(i) == q[i], "at(", i, ") is ", c.at(i), ", expected ", q[i]); }
  CHECK(thrown([&] { (void)c.at(q.size()); }) == 1 && thrown([&] { (void)b.at(q.size() + 3); }) == 1, "at() beyond the end must refuse");
  CHECK(thrown([&] { (void)c.at(size_t(-1)); }) == 1 && thrown([&] { (void)b.at(size_t(-2)); }) == 1, "at() beyond the end must refuse");
  if (!q.empty()) CHECK(c.front() == q.front() && b.front() == q.front(), "front()"); else CHECK(thrown([&] { (void)c.front(); }) == 1 && thrown([&] { (void)b.front(); }) == 1, "front() of an empty buffer must refuse");
  // iterators
  size_t k = 0;
  for (RB::const_iterator i = c.begin(); i != c.end(); ++i, ++k) { CHECK(k < q.size(), "iteration does not end"); CHECK(*i == q[k] && *i.operator->() == q[k], "iteration at ", k, " gives ", *i, ", expected ", q[k]); }
  CHECK(k == q.size(), "iteration visits ", k, " elements of ", q.size());
  k = 0; for (RB::iterator i = b.begin(); i != b.end(); i++, ++k) { CHECK(k < q.size(), "iteration does not end"); CHECK(*i == q[k], "iteration (post-increment) at ", k); }
  k = q.size(); for (RB::const_iterator i = c.end(); i != c.begin();) { CHECK(k > 0, "backward iteration does not end"); if (k & 1) --i; else i--; --k; CHECK(*i == q[k], "backward iteration at ", k); }
  CHECK((c.begin() == c.end()) == q.empty(), "begin()==end()");
  // ranges
  RB::array_range a1 = b.arrayOne(), a2 = b.arrayTwo(); RB::const_array_range e1 = c.arrayOne(), e2 = c.arrayTwo();
  CHECK(a1.first == e1.first && a1.second == e1.second && a2.second == e2.second && (a2.second == 0 || a2.first == e2.first), "const and non-const ranges differ");
  CHECK(a1.second + a2.second == q.size(), "filled ranges hold ", a1.second, "+", a2.second, " elements");
  for (size_t i = 0; i < q.size(); ++i) CHECK((i < a1.second ? a1.first[i] : a2.first[i - a1.second]) == q[i], "filled ranges differ at ", i);
  RB::array_range f1 = b.emptyArrayOne(), f2 = b.emptyArrayTwo(); RB::const_array_range g1 = c.emptyArrayOne(), g2 = c.emptyArrayTwo();
  CHECK(f1.second == g1.second && f2.second == g2.second && (f1.second == 0 || f1.first == g1.first) && (f2.second == 0 || f2.first == g2.first), "const and non-const empty ranges differ");
  CHECK(f1.second + f2.second == cap - q.size(), "empty ranges hold ", f1.second, "+", f2.second);
}
static void jumps(RB& b, const Q& q, Rng& r)
{
  const RB& c = b; long n = long(q.size());
  for (int t = 0; t < 8; ++t)
  {
    long i = r.range(0, n), j = r.range(0, n);
    RB::const_iterator x = c.begin() + i;
    RB::const_iterator y(x); y += j - i; RB::const_iterator z = c.end() - (n - j); RB::const_iterator w = c.end(); w -= n - j;
    std::string at = cat("jump from ", i, " to ", j, " of ", n);
    CHECK(y == z && w == z && !(y != z), at, ": positions differ");
    CHECK((y - x) == j - i && (x - y) == i - j && (y - c.begin()) == j && (c.end() - y) == n - j, at, ": differences ", (y - x));
    CHECK((x == y) == (i == j) && (x != y) == (i != j), at, ": equality");
    RB::const_iterator v = c.begin() + i; v -= i - j; CHECK(v == y && (c.begin() + i) - (i - j) == y && (n == 0 || j == n || ((c.begin() + j) - (j - n)) == c.end()), at, ": jump by minus");
    if (j < n) CHECK(*y == q[j], at, ": element");
    RB::iterator m = b.begin(); RB::iterator m2 = b.end(); m2 = m; if (n) CHECK(*m2 == q[0] && m2.operator->() == &b.front(), "iterator copy");
  }
}
static RB::iterator* g_old; static RB::const_iterator* g_oldc;
static void reassign(RB& b, const Q& q)   // variables that held iterators of an earlier state take over all of a new iterator
{
  const RB& c = b; long n = long(q.size());
  *g_old = b.end(); *g_oldc = c.end();
  CHECK(*g_old - b.begin() == n && b.begin() - *g_old == -n && *g_oldc - c.begin() == n && c.begin() - *g_oldc == -n, "difference after assigning to an old iterator");
  *g_old = b.begin(); *g_oldc = c.begin();
  CHECK(b.end() - *g_old == n && *g_old - b.end() == -n && c.end() - *g_oldc == n && *g_oldc - c.end() == -n, "difference after assigning to an old iterator");
  RB::const_iterator i = *g_old; long k = 0; for (; i != c.end(); ++i, ++k) CHECK(k < n && *i == q[k], "iteration with an assigned iterator");
}
static void history(Rng& r, int steps, size_t cap0)
{
  g_ctx = cat("RingBuffer(", cap0, ")");
  RB b(cap0); Q q; size_t cap = cap0; uint32_t nv = 1;
  same(b, q, cap); delete g_old; delete g_oldc; g_old = new RB::iterator(b.begin()); g_oldc = new RB::const_iterator(((const RB&)b).begin());
  for (int s = 0; s < steps; ++s)
  {
    switch (r.below(12))
    {
    case 0: case 1: case 2: case 3: { bool ow = r.coin(); uint32_t v = nv++; log(cat(".write(", v, ",", ow, ")")); int t = thrown([&] { b.write(v, ow); });
      bool bad = q.size() == cap && (!ow || cap == 0); CHECK(t == (bad ? 1 : 0), "write must ", bad ? "refuse" : "succeed"); if (!bad) { if (q.size() == cap) q.pop_front(); q.push_back(v); } break; }
    case 4: { log(".read()"); uint32_t v = 0; int t = thrown([&] { v = b.read(); }); CHECK(t == (q.empty() ? 1 : 0), "read must ", q.empty() ? "refuse" : "succeed"); if (!q.empty()) { CHECK(v == q.front(), "read gives ", v, ", expected ", q.front()); q.pop_front(); } break; }
    case 5: { log(".skip()"); int t = thrown([&] { b.skip(); }); CHECK(t == (q.empty() ? 1 : 0), "skip must ", q.empty() ? "refuse" : "succeed"); if (!q.empty()) q.pop_front(); break; }
    case 6: { size_t n = r.below(8) == 0 ? size_t(-1) - r.below(3) : r.below(cap + 3); log(cat(".skip(", n, ")")); b.skip(n); for (size_t i = 0; i < n && !q.empty(); ++i) q.pop_front(); break; }
    case 7: { if (r.below(3)) break; size_t n = r.below(cap + 6); log(cat(".setCapacity(", n, ")")); b.setCapacity(n); cap = n; while (q.size() > cap) q.pop_front(); break; }
    case 8: { if (r.below(6)) break; log(".clear()"); b.clear(); q.clear(); break; }
    case 9: { size_t n = r.below(cap + 3); RB::array_range f1 = b.emptyArrayOne(), f2 = b.emptyArrayTwo(); size_t room = cap - q.size(), m = std::min(n, room); log(cat(".fill+fakeWrite(", n, ")"));
      CHECK(f1.second + f2.second == room, "empty ranges hold ", f1.second, "+", f2.second, " slots, expected ", room);
      for (size_t i = 0; i < m; ++i) { uint32_t v = nv++; (i < f1.second ? f1.first[i] : f2.first[i - f1.second]) = v; q.push_back(v); } if (r.below(5) == 0 && n >= room) n = size_t(-1); b.fakeWrite(n); break; }
    case 10: { if (q.empty()) break; size_t i = r.below(q.size()); if (r.coin()) { log(cat(".at(", i, ")=")); b.at(i) = nv; q[i] = nv++; } else { bool full = q.size() == cap; log(cat(".write(at(", i, "),true)")); uint32_t v = q[i]; b.write(b.at(i), true); if (full) q.pop_front(); q.push_back(v); } break; }
    case 11: { log("copy"); RB d(b); same(d, q, cap); RB e(1 + r.below(5)); if (r.coin()) { e.write(1, true); } e = b; same(e, q, cap); b = *&b; same(b, q, cap); break; }
    }
    same(b, q, cap); jumps(b, q, r); reassign(b, q);
  }
}
static void thistory(Rng& r, int steps, size_t cap0)
{
  g_ctx = cat("tRingBuffer(", cap0, ")");
  TRB b(cap0); Q q; size_t cap = cap0; uint32_t nv = 1;
  for (int s = 0; s < steps; ++s)
  {
    switch (r.below(9))
    {
    case 0: case 1: case 2: case 3: { bool ow = r.coin(); uint32_t v = nv++; log(cat(".Write(", v, ",", ow, ")")); int t = thrown([&] { b.Write(v, ow); }); bool bad = q.size() == cap && (!ow || cap == 0); CHECK(t == (bad ? 1 : 0), "Write"); if (!bad) { if (q.size() == cap) q.pop_front(); q.push_back(v); } break; }
    case 4: { log(".Read()"); uint32_t v = 0; int t = thrown([&] { v = b.Read(); }); CHECK(t == (q.empty() ? 1 : 0), "Read"); if (!q.empty()) { CHECK(v == q.front(), "Read gives ", v); q.pop_front(); } break; }
    case 5: { log(".Skip()"); int t = thrown([&] { b.Skip(); }); CHECK(t == (q.empty() ? 1 : 0), "Skip"); if (!q.empty()) q.pop_front(); break; }
    case 6: { size_t n = r.below(cap + 6); log(cat(".SetCapacity(", n, ")")); b.SetCapacity(n); cap = n; while (q.size() > cap) q.pop_front(); break; }
    case 7: { if (r.below(6)) break; log(".Clear()"); b.Clear(); q.clear(); break; }
    case 8: { log("copy"); TRB d(b); TRB e(2); e = d; b = e; break; }
    }
    CHECK(b.Size() == q.size() && b.Capacity() == cap, "Size/Capacity"); const TRB& c = b;
    for (size_t i = 0; i < q.size(); ++i) CHECK(b.At(i) == q[i] && c.At(i) == q[i], "At(", i, ")");
    CHECK(thrown([&] { (void)b.At(q.size()); }) == 1 && thrown([&] { (void)c.At(q.size()); }) == 1, "At beyond the end must refuse");
  }
}
// replay of a counterexample: build the state (N, r, w), then apply every operation once
void h_model(const std::string& unit, const Model& m)
{
  size_t N = size_t(h_int(m, "rb.buf.len", 3)), w = size_t(h_int(m, "rb.w")), r = size_t(h_int(m, "rb.r"));
  if (N < 1 || N > 4000 || w >= N || r >= N) return;
  for (int op = 0; op < 60; ++op)
  {
    g_ctx = cat("capacity=", N - 1, " write position=", w, " read position=", r, " then");
    RB b(N - 1); Q q; uint32_t nv = 1;
    if (N > 1) { for (size_t i = 0; i < r; ++i) { b.write(0); b.skip(); } size_t n = w >= r ? w - r : w + N - r; for (size_t i = 0; i < n; ++i) { b.write(nv); q.push_back(nv++); } }
    same(b, q, N - 1);
    Rng g(op + 1);
    size_t cnt = size_t(h_int(m, "count", op % 7)), capn = size_t(h_int(m, "capacity", op % 9)); if (capn > 100000) capn = 5;
    switch (op % 6)
    {
    case 0: { log(cat(" setCapacity(", capn, ")")); b.setCapacity(capn); while (q.size() > capn) q.pop_front(); same(b, q, capn); break; }
    case 1: { log(cat(" skip(", cnt, ")")); b.skip(cnt); for (size_t i = 0; i < cnt && !q.empty(); ++i) q.pop_front(); same(b, q, N - 1); break; }
    case 2: { bool ow = op & 8; log(cat(" write(7,", ow, ")")); bool bad = q.size() == N - 1 && (!ow || N == 1); int t = thrown([&] { b.write(7, ow); }); CHECK(t == (bad ? 1 : 0), "write"); if (!bad) { if (q.size() == N - 1) q.pop_front(); q.push_back(7); } same(b, q, N - 1); break; }
    case 3: { log(" read"); if (q.empty()) { CHECK(thrown([&] { b.read(); }) == 1, "read"); break; } CHECK(b.read() == q.front(), "read"); q.pop_front(); same(b, q, N - 1); break; }
    case 4: { RB::array_range f1 = b.emptyArrayOne(), f2 = b.emptyArrayTwo(); size_t k = std::min(cnt, N - 1 - q.size()); log(cat(" fakeWrite(", cnt, ")")); for (size_t i = 0; i < k; ++i) { (i < f1.second ? f1.first[i] : f2.first[i - f1.second]) = nv; q.push_back(nv++); } b.fakeWrite(cnt); same(b, q, N - 1); break; }
    case 5: jumps(b, q, g); break;
    }
  }
}
void h_search(Rng& r, double until)
{
  for (size_t cap = 0; cap < 9; ++cap) for (int i = 0; i < 60; ++i) { history(r, 40, cap); thistory(r, 40, cap); }
  while (h_now() < until) { alarm(60); history(r, 60 + int(r.below(200)), r.below(r.coin() ? 6 : 40)); thistory(r, 100, r.below(12)); }
}
