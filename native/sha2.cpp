// SHA-2 against a reference written from FIPS 180-4, whose constants are computed, on random messages and splits
#include "h.h"
#include <icl_core_crypt/Sha2.h>
using namespace icl_core::crypt;
typedef unsigned __int128 u128;
// first `bits` bits of the fractional part of the k-th root of p, by digit recurrence with big enough integers
struct Big { uint32_t d[12]; };
static Big bmul(const Big& a, const Big& b)
{
  Big r; memset(&r, 0, sizeof r);
  for (int i = 0; i < 12; ++i) { uint64_t c = 0; for (int j = 0; i + j < 12; ++j) { c += uint64_t(a.d[i]) * b.d[j] + r.d[i + j]; r.d[i + j] = uint32_t(c); c >>= 32; } }
  return r;
}
static int bcmp_(const Big& a, const Big& b) { for (int i = 11; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static uint64_t frac(unsigned p, int k, int bits)
{
  Big t; memset(&t, 0, sizeof t); t.d[k * bits / 32] = p;       // p << (k*bits); bits is 32 or 64
  Big x; memset(&x, 0, sizeof x);
  for (int b = bits + 5; b >= 0; --b)
  {
    x.d[b / 32] |= 1u << (b % 32);
    Big y = bmul(x, x); if (k == 3) y = bmul(y, x);
    if (bcmp_(y, t) > 0) x.d[b / 32] &= ~(1u << (b % 32));
  }
  return bits == 32 ? x.d[0] : (uint64_t(x.d[1]) << 32 | x.d[0]);
}
static uint64_t K32[80], K64[80], I32[16], I64[16];
static void consts()
{
  unsigned p[80]; int n = 0;
  for (unsigned k = 2; n < 80; ++k) { bool pr = true; for (int i = 0; i < n; ++i) pr = pr && k % p[i]; if (pr) p[n++] = k; }
  for (int i = 0; i < 64; ++i) K32[i] = frac(p[i], 3, 32);
  for (int i = 0; i < 80; ++i) K64[i] = frac(p[i], 3, 64);
  for (int i = 0; i < 16; ++i) { I32[i] = frac(p[i], 2, 32); I64[i] = frac(p[i], 2, 64); }
}
template <class W> static std::string ref(const std::string& msg, const uint64_t* K, int rounds, std::vector<W> H, int outw, const int S[12], u128 before = 0)
{
  const int w = sizeof(W) * 8, B = w * 2, n = sizeof(W);
  std::string m = msg; m += char(0x80);
  while (m.size() % B != size_t(B - 2 * n)) m += char(0);
  u128 bits = (before + msg.size()) * 8;
  for (int i = 2 * n - 1; i >= 0; --i) m += char(bits >> (8 * i));
  auto R = [&](W x, int k) { return W(x >> k | x << (w - k)); };
  for (size_t o = 0; o < m.size(); o += B)
  {
    W ws[80];
    for (int t = 0; t < 16; ++t) { ws[t] = 0; for (int i = 0; i < n; ++i) ws[t] = W(ws[t] << 8) | (unsigned char)m[o + t * n + i]; }
    for (int t = 16; t < rounds; ++t)
      ws[t] = W(R(ws[t-2], S[9]) ^ R(ws[t-2], S[10]) ^ (ws[t-2] >> S[11])) + ws[t-7] + W(R(ws[t-15], S[6]) ^ R(ws[t-15], S[7]) ^ (ws[t-15] >> S[8])) + ws[t-16];
    std::vector<W> v = H;
    for (int t = 0; t < rounds; ++t)
    {
      W T1 = v[7] + W(R(v[4], S[3]) ^ R(v[4], S[4]) ^ R(v[4], S[5])) + W((v[4] & v[5]) ^ (~v[4] & v[6])) + W(K[t]) + ws[t];
      W T2 = W(R(v[0], S[0]) ^ R(v[0], S[1]) ^ R(v[0], S[2])) + W((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int i = 7; i > 0; --i) v[i] = v[i-1];
      v[4] += T1; v[0] = T1 + T2;
    }
    for (int i = 0; i < 8; ++i) H[i] += v[i];
  }
  std::string r; char b[20];
  for (int i = 0; i < outw; ++i) { snprintf(b, sizeof b, w == 32 ? "%08llx" : "%016llx", (unsigned long long)H[i]); r += b; }
  return r;
}
static const int SA[12] = {2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10}, SB[12] = {28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6};
static std::string reference(int alg, const std::string& m)
{
  std::vector<uint32_t> h; std::vector<uint64_t> g;
  for (int i = 0; i < 8; ++i)
    switch (alg) { case 0: h.push_back(uint32_t(I64[8 + i])); break; case 1: h.push_back(uint32_t(I32[i])); break; case 2: g.push_back(I64[8 + i]); break; default: g.push_back(I64[i]); }
  static const int out[4] = {7, 8, 6, 8};
  return alg < 2 ? ref<uint32_t>(m, K32, 64, h, out[alg], SA) : ref<uint64_t>(m, K64, 80, g, out[alg], SB);
}
template <class T> static void feed(T& x, Rng& r, const std::string& m)
{
  size_t o = 0;
  const size_t B = sizeof(x.m_buffer);
  while (o < m.size())
  {
    size_t n = m.size() - o, k;
    switch (r.below(5)) { case 0: k = r.below(n + 1); break; case 1: k = r.below(4); break; case 2: k = B; break; case 3: k = B - (o % B); break; default: k = n; }
    if (k > n) k = n;
    std::string s = m.substr(o, k);
    int how = r.below(3);
    if (how == 0 && s.find('\0') != std::string::npos) how = 1;
    g_ctx += cat(" ", how == 0 ? "text" : how == 1 ? "data" : "string", ":", k);
    if (how == 0) x.process(s.c_str());
    else if (how == 1) { std::vector<char> d(s.begin(), s.end()); x.process((const void*)(d.empty() ? (const char*)"" : d.data()), d.size()); }
    else x.process(s);
    o += k;
  }
  x.finalize();
}
template <class T> static void one(Rng& r, int alg, const char* name)
{
  std::string m, e;
  const size_t B = alg < 2 ? 64 : 128;
  size_t n = r.coin() ? r.below(3 * B + 2) : r.below(4) * B + r.below(20) + B - 19;
  if (r.below(200) == 0) n = r.below(200000);
  int kind = r.below(3);
  for (size_t i = 0; i < n; ++i) m += kind == 0 ? char(r.next() >> 30) : kind == 1 ? char('a' + r.below(26)) : char(0xff);
  g_ctx = cat(name, ", ", n, " bytes of kind ", kind, " in calls");
  T* x = (T*)malloc(sizeof(T));
  memset(x, int(r.below(256)), sizeof(T));
  new (x) T();
  if (r.below(3) == 0) { std::string f(r.below(300), 'q'); if (r.coin()) feed(*x, r, f); else x->process(f); g_ctx += cat(" (", f.size(), " bytes before) clear"); x->clear(); }
  feed(*x, r, m);
  CHECK(x->getHexDigest() == reference(alg, m), "digest ", x->getHexDigest(), " instead of ", reference(alg, m));
  free(x);
}
// a message too long for a 32-bit count of bits: its chaining value is taken from the object, the padding from the reference
static void long_message()
{
  consts();
  alarm(200);
  g_ctx = "SHA-256 of 2^29 + 3 zero bytes, in calls of 2^16 bytes";
  std::vector<char> z(65536, 0);
  Sha256 x;
  for (int i = 0; i < 8192; ++i) x.process(z.data(), z.size());
  x.process(z.data(), 1);
  std::vector<uint32_t> h(x.m_digest, x.m_digest + 8);
  x.process(z.data(), 2);
  x.finalize();
  std::string e = ref<uint32_t>(std::string(3, 0), K32, 64, h, 8, SA, u128(1) << 29);
  CHECK(x.getHexDigest() == e, "digest ", x.getHexDigest(), " instead of ", e);
}
void h_search(Rng&, double);
void h_model(const std::string& unit, const Model&)
{
  Rng r(1);
  h_search(r, h_now() + 4);
  if (unit.find("finalisation") != std::string::npos || unit.find("process") != std::string::npos) long_message();
}
void h_search(Rng& r, double until)
{
  consts();
  CHECK(I32[0] == 0x6a09e667 && I64[0] == 0x6a09e667f3bcc908ull && K64[0] == 0x428a2f98d728ae22ull, "the reference is broken");
  for (int it = 0; it < 30000 && h_now() < until; ++it) { alarm(30); one<Sha224>(r, 0, "SHA-224"); one<Sha256>(r, 1, "SHA-256"); one<Sha384>(r, 2, "SHA-384"); one<Sha512>(r, 3, "SHA-512"); }
  alarm(0);
}
